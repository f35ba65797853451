//! Files whose operating-system answers the explorer chooses. Data goes to the real file system.
pub use ::std::fs::*;
use ::std::fs as real;
use ::std::io::{self, Read, Write, Seek, SeekFrom, Error, ErrorKind};
use ::std::path::{Path, PathBuf};
use vctl::io::{ask, Answer, Op};

/// Under the scheduler, what is asked of the file system is a scheduling point.
fn turn() {
    use vctl::sched;
    static ID: ::std::sync::atomic::AtomicU32 = ::std::sync::atomic::AtomicU32::new(0);
    if sched::me().is_some() { sched::point(sched::Op { obj: sched::obj_id(&ID), kind: sched::Kind::Store }) }
}
/// A file directly in /tmp is one in the directory of the worker, which shares it with nobody.
fn own<P: AsRef<Path>>(p: P) -> PathBuf {
    let p = p.as_ref();
    match (::std::env::var_os("TMPDIR"), p.file_name()) {
        (Some(t), Some(n)) if p.parent() == Some(Path::new("/tmp")) => Path::new(&t).join(n),
        _ => p.into(),
    }
}
fn gate(op: Op) -> io::Result<()> {
    turn();
    match ask(op) {
        Answer::Ok | Answer::Short(_) => Ok(()),
        // opening retries on EINTR inside std, so an interruption is invisible there
        Answer::Interrupted => Ok(()),
        Answer::Fail | Answer::Zero => Err(refuse(op)),
    }
}
fn refuse(op: Op) -> Error {
    match op {
        Op::Write(_) => Error::from_raw_os_error(28),  // ENOSPC
        Op::Read(_) => Error::from_raw_os_error(5),    // EIO
        _ => Error::from_raw_os_error(13),             // EACCES
    }
}

#[derive(Debug)]
pub struct File { inner: real::File }

impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> { gate(Op::Open)?; Ok(File { inner: real::File::open(own(p))? }) }
    pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> { gate(Op::Create)?; Ok(File { inner: real::File::create(own(p))? }) }
    pub fn create_new<P: AsRef<Path>>(p: P) -> io::Result<File> { gate(Op::Create)?; Ok(File { inner: real::File::create_new(own(p))? }) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn sync_all(&self) -> io::Result<()> { self.inner.sync_all() }
    pub fn sync_data(&self) -> io::Result<()> { self.inner.sync_data() }
    pub fn set_len(&self, n: u64) -> io::Result<()> { gate(Op::Meta)?; self.inner.set_len(n) }
    pub fn metadata(&self) -> io::Result<Metadata> { self.inner.metadata() }
    pub fn set_permissions(&self, p: Permissions) -> io::Result<()> { self.inner.set_permissions(p) }
    pub fn try_clone(&self) -> io::Result<File> { Ok(File { inner: self.inner.try_clone()? }) }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return (&self.inner).write(buf) }
        let op = Op::Write(buf.len());
        turn();
        match ask(op) {
            Answer::Ok => { (&self.inner).write_all(buf)?; Ok(buf.len()) }
            Answer::Short(n) => { let n = n.clamp(1, buf.len()); (&self.inner).write_all(&buf[..n])?; Ok(n) }
            Answer::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Answer::Zero => Ok(0),
            Answer::Fail => Err(refuse(op)),
        }
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0) }
        let op = Op::Read(buf.len());
        turn();
        match ask(op) {
            Answer::Ok | Answer::Zero => (&self.inner).read(buf),
            Answer::Short(n) => { let n = n.clamp(1, buf.len()); (&self.inner).read(&mut buf[..n]) }
            Answer::Interrupted => Err(Error::from(ErrorKind::Interrupted)),
            Answer::Fail => Err(refuse(op)),
        }
    }
}
impl Write for File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.do_write(buf) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Write for &File {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.do_write(buf) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Read for File { fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.do_read(buf) } }
impl Read for &File { fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.do_read(buf) } }
impl Seek for File { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.inner.seek(p) } }
impl Seek for &File { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { (&self.inner).seek(p) } }
impl From<real::File> for File { fn from(inner: real::File) -> Self { File { inner } } }

#[derive(Clone, Debug)]
pub struct OpenOptions { inner: real::OpenOptions, creating: bool }
impl OpenOptions {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { OpenOptions { inner: real::OpenOptions::new(), creating: false } }
    pub fn read(&mut self, v: bool) -> &mut Self { self.inner.read(v); self }
    pub fn write(&mut self, v: bool) -> &mut Self { self.inner.write(v); self }
    pub fn append(&mut self, v: bool) -> &mut Self { self.inner.append(v); self }
    pub fn truncate(&mut self, v: bool) -> &mut Self { self.inner.truncate(v); self }
    pub fn create(&mut self, v: bool) -> &mut Self { self.inner.create(v); self.creating |= v; self }
    pub fn create_new(&mut self, v: bool) -> &mut Self { self.inner.create_new(v); self.creating |= v; self }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
        gate(if self.creating { Op::Create } else { Op::Open })?;
        Ok(File { inner: self.inner.open(own(p))? })
    }
}

pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    File::open(p)?.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
    let mut s = String::new();
    File::open(p)?.read_to_string(&mut s)?;
    Ok(s)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> { File::create(p)?.write_all(c.as_ref()) }
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<()> { gate(Op::Rename)?; real::rename(own(a), own(b)) }
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(a: P, b: Q) -> io::Result<u64> {
    let mut r = File::open(a)?;
    let mut w = File::create(b)?;
    io::copy(&mut r, &mut w)
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> io::Result<()> { turn(); real::remove_file(own(p)) }
pub fn exists<P: AsRef<Path>>(p: P) -> io::Result<bool> { turn(); real::exists(own(p)) }
