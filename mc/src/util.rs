//! Enumeration and process helpers.
use std::hash::{Hash, Hasher};
use std::cell::RefCell;

/// A fixed hash (FNV-1a with a final mix), the same in every process.
pub struct Fnv(u64);
impl Default for Fnv { fn default() -> Self { Fnv(0xcbf2_9ce4_8422_2325) } }
impl Hasher for Fnv {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 ^= *x as u64; self.0 = self.0.wrapping_mul(0x100_0000_01b3) } }
    fn finish(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fnv::default(); t.hash(&mut h); h.finish() }

/// All sequences over `n` letters of length `min..=max`, shortest first.
#[derive(Clone, Copy)]
pub struct Seqs { pub n: u64, pub min: u32, pub max: u32 }
impl Seqs {
    pub fn new(n: usize, min: u32, max: u32) -> Self { Seqs { n: n as u64, min, max } }
    pub fn size(&self) -> u64 { (self.min..=self.max).map(|k| self.n.pow(k)).sum() }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        for k in self.min..=self.max {
            let c = self.n.pow(k);
            if i < c {
                let mut v = vec![0; k as usize];
                for p in (0..k as usize).rev() { v[p] = (i % self.n) as usize; i /= self.n; }
                return v;
            }
            i -= c;
        }
        unreachable!()
    }
}

/// Splits an index into digits of the given radices (first digit varies slowest).
pub fn digits(mut i: u64, radices: &[u64]) -> Vec<usize> {
    let mut v = vec![0; radices.len()];
    for p in (0..radices.len()).rev() { v[p] = (i % radices[p]) as usize; i /= radices[p]; }
    v
}

/// 0..=upto, then values around the powers of two up to `max`.
pub fn lengths(upto: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=upto).collect();
    let mut p = 1usize;
    while p <= max {
        for d in [p.wrapping_sub(1), p, p + 1] { if d > upto && d <= max && !v.contains(&d) { v.push(d) } }
        p *= 2;
    }
    let mut q = 10;
    while q <= max { for d in [q, q + 1] { if d > upto && d <= max && !v.contains(&d) { v.push(d) } } q *= 10; }
    v.sort_unstable();
    v
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Panics are recorded, not printed.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_BACKTRACE").is_some() { eprintln!("panic: {m}{at}\n{}", std::backtrace::Backtrace::force_capture()) }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("{m}{at}"));
    }));
}
pub fn panic_text() -> String { PANIC.with(|p| p.borrow().clone()) }

/// Runs `f`, turning a panic into its message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| panic_text())
}

/// Text as it is shown in messages: debug-quoted and cut.
pub fn show(s: &str) -> String {
    if s.chars().count() <= 160 { return format!("{s:?}") }
    let head: String = s.chars().take(120).collect();
    format!("{head:?}… ({} bytes)", s.len())
}

/// Runs `f` in a forked child and returns the bytes it made, or how it died.
/// The caller must be single-threaded.
pub fn in_child(timeout_s: u64, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 { engine_error("pipe") }
        let pid = libc::fork();
        if pid < 0 { engine_error("fork") }
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(timeout_s as u32);
            let r = quiet(f);
            let (tag, data) = match r { Ok(d) => (0u8, d), Err(m) => (1u8, m.into_bytes()) };
            let mut all = vec![tag];
            all.extend_from_slice(&data);
            let mut off = 0;
            while off < all.len() {
                let n = libc::write(fds[1], all[off..].as_ptr() as *const _, all.len() - off);
                if n <= 0 { break }
                off += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 { if *libc::__errno_location() == libc::EINTR { continue } break }
            if n == 0 { break }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == ENGINE_STATUS { libc::_exit(ENGINE_STATUS) }
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return Err(if s == libc::SIGALRM { format!("did not finish within {timeout_s} s") } else { format!("killed by signal {s}") });
        }
        if out.is_empty() { return Err(format!("ended early with status {}", libc::WEXITSTATUS(st))) }
        let tag = out.remove(0);
        if tag == 0 { Ok(out) } else { Err(format!("panicked: {}", String::from_utf8_lossy(&out))) }
    }
}

pub const ENGINE_STATUS: i32 = 97;
pub fn engine_error(m: &str) -> ! {
    eprintln!("ENGINE-ERROR {m} (errno {})", std::io::Error::last_os_error());
    unsafe { libc::_exit(ENGINE_STATUS) }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Every name that is nearly `base`, but not it.
pub fn near_names_of(base: &str) -> Vec<String> {
    let c: Vec<char> = base.chars().collect();
    let l = c.len();
    let some = |upto: usize| -> Vec<usize> { if upto <= 48 { (0..upto).collect() } else { (0..20).chain([upto / 2, upto / 2 + 1]).chain(upto - 20..upto).collect() } };
    let text = |v: &[char]| v.iter().collect::<String>();
    let mut near: Vec<String> = vec![];
    for k in some(l) {
        near.push(text(&c[..k]));
        near.push(text(&c[l - k..]));
        let mut v = c.clone(); v.remove(k); near.push(text(&v));
        let mut v = c.clone(); v.insert(k, c[k]); near.push(text(&v));
        let mut v = c.clone(); v.insert(k, ' '); near.push(text(&v));
        let mut v = c.clone(); v[k] = '*'; near.push(text(&v));
        let mut v = c.clone(); v[k] = if v[k].is_lowercase() { v[k].to_uppercase().next().unwrap() } else { v[k].to_lowercase().next().unwrap() }; near.push(text(&v));
        if k > 0 { let mut v = c.clone(); v.swap(k, k - 1); near.push(text(&v)); }
    }
    for t in [" ", "\n", "\t", "\0", "\u{200b}", "\u{301}", "\u{a0}", "s", ".", "2", "family", "\""] { near.push(format!("{base}{t}")); near.push(format!("{t}{base}")); near.push(format!("{t}{base}{t}")) }
    near.extend([base.to_lowercase(), base.to_uppercase(), base.trim().to_string(), base.replace(' ', "-"), base.replace(' ', "_"), base.replace(' ', ""), format!("{base}{base}"), format!("{base} {base}"), text(&c.iter().rev().copied().collect::<Vec<_>>())]);
    near.sort(); near.dedup();
    near.retain(|n| n != base && !n.trim().is_empty());
    near
}
