//! Boring reference models, written from the properties and not from the implementation.
use std::collections::BTreeSet;

// ------------------------------------------------------------------ texts

pub fn is_punct(c: char) -> bool { matches!(c, '<' | '>' | '-' | '+' | '(' | ')' | ';') }

/// Tokens of a production string with their byte spans.
pub fn tokens(text: &str) -> Vec<(usize, usize)> {
    let cs: Vec<(usize, char)> = text.char_indices().collect();
    let end = |i: usize| if i < cs.len() { cs[i].0 } else { text.len() };
    let mut v = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].1.is_whitespace() { i += 1; continue }
        let start = i;
        if is_punct(cs[i].1) { while i < cs.len() && is_punct(cs[i].1) { i += 1 } }
        else { while i < cs.len() && !is_punct(cs[i].1) && !cs[i].1.is_whitespace() { i += 1 } }
        v.push((cs[start].0, end(i)));
    }
    v
}

/// What a production string text means: the symbol names, or an error.
pub fn prod_string(text: &str) -> Result<Vec<String>, ()> {
    let mut v = Vec::new();
    for (a, b) in tokens(text) {
        match &text[a..b] {
            ";" => break,
            "->" | "<" | ">" => return Err(()),
            t => v.push(t.to_string()),
        }
    }
    Ok(v)
}

// ------------------------------------------------------------------ rewriting

pub type Str = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rule { pub left: Str, pub target: u8, pub right: Str, pub bodies: Vec<Str> }

impl Rule {
    pub fn new(left: &[u8], target: u8, right: &[u8], body: &[u8]) -> Rule {
        Rule { left: left.to_vec(), target, right: right.to_vec(), bodies: vec![body.to_vec()] }
    }
    pub fn same_head(&self, o: &Rule) -> bool { self.left == o.left && self.target == o.target && self.right == o.right }
}

pub fn matches<T: PartialEq>(left: &[T], target: &T, right: &[T], s: &[T], i: usize) -> bool {
    if i >= s.len() || s[i] != *target { return false }
    if left.len() > i { return false }
    if right.len() > s.len() - 1 - i { return false }
    for k in 0..left.len() { if s[i - left.len() + k] != left[k] { return false } }
    for k in 0..right.len() { if s[i + 1 + k] != right[k] { return false } }
    true
}

/// One step with rules of one alternative each.
pub fn step(rules: &[Rule], s: &[u8]) -> Str {
    let mut out = Vec::new();
    for i in 0..s.len() {
        match rules.iter().find(|r| matches(&r.left, &r.target, &r.right, s, i)) {
            Some(r) => out.extend_from_slice(&r.bodies[0]),
            None => out.push(s[i]),
        }
    }
    out
}

/// All strings one step may give, when rules may have several alternatives.
pub fn possible(rules: &[Rule], s: &[u8]) -> BTreeSet<Str> {
    let mut acc: BTreeSet<Str> = BTreeSet::from([vec![]]);
    for i in 0..s.len() {
        let one;
        let choices: &[Str] = match rules.iter().find(|r| matches(&r.left, &r.target, &r.right, s, i)) {
            Some(r) => &r.bodies,
            None => { one = [vec![s[i]]]; &one }
        };
        let mut next = BTreeSet::new();
        for a in &acc { for c in choices { let mut x = a.clone(); x.extend_from_slice(c); next.insert(x); } }
        acc = next;
    }
    acc
}

/// Adding a rule: merged by head, or appended. Returns the resulting rule.
pub fn add(rules: &mut Vec<Rule>, r: &Rule) -> Rule {
    if let Some(x) = rules.iter_mut().find(|x| x.same_head(r)) {
        x.bodies.extend(r.bodies.iter().cloned());
        return x.clone();
    }
    rules.push(r.clone());
    r.clone()
}

// ------------------------------------------------------------------ turtle

pub type P = (f64, f64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cmd { Forward, Move, Plus, Minus, Push, Pop, Other }
pub const CMD_NAMES: [&str; 6] = ["Forward", "Move", "+", "-", "[", "]"];
pub fn cmd(name: &str) -> Cmd {
    match name { "Forward" => Cmd::Forward, "Move" => Cmd::Move, "+" => Cmd::Plus, "-" => Cmd::Minus, "[" => Cmd::Push, "]" => Cmd::Pop, _ => Cmd::Other }
}

/// The drawn lines (of two or more points) and the turtle's last position; None if a ] is unmatched.
pub fn turtle(cmds: &[Cmd], delta: f64) -> Option<(Vec<Vec<P>>, P)> {
    // heading is kept as a whole number of turns of delta: no error accumulates here
    let mut turns = 0i64;
    let mut pos: P = (0.0, 0.0);
    let mut stack: Vec<(P, i64)> = Vec::new();
    let mut lines = Vec::new();
    let mut line = vec![pos];
    let fwd = |p: P, turns: i64| -> P {
        let a = ((turns as f64 * delta).rem_euclid(360.0)).to_radians();
        (p.0 - 5.0 * a.sin(), p.1 + 5.0 * a.cos())
    };
    for c in cmds {
        match c {
            Cmd::Forward => { pos = fwd(pos, turns); line.push(pos) }
            Cmd::Move => { pos = fwd(pos, turns); if line.len() > 1 { lines.push(std::mem::take(&mut line)) } line = vec![pos] }
            Cmd::Plus => turns += 1,
            Cmd::Minus => turns -= 1,
            Cmd::Push => stack.push((pos, turns)),
            Cmd::Pop => {
                (pos, turns) = stack.pop()?;
                if line.len() > 1 { lines.push(std::mem::take(&mut line)) }
                line = vec![pos];
            }
            Cmd::Other => {}
        }
    }
    if line.len() > 1 { lines.push(line) }
    Some((lines, pos))
}

// ------------------------------------------------------------------ SVG

#[derive(Debug, Clone)]
pub struct Node { pub name: String, pub attrs: Vec<(String, String)>, pub kids: Vec<Node> }
impl Node {
    pub fn attr(&self, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str()) }
}

struct Xml<'a> { s: &'a str, i: usize }
impl Xml<'_> {
    fn rest(&self) -> &str { &self.s[self.i..] }
    fn ws(&mut self) { while self.rest().starts_with(|c: char| c.is_ascii_whitespace()) { self.i += 1 } }
    fn eat(&mut self, t: &str) -> bool { if self.rest().starts_with(t) { self.i += t.len(); true } else { false } }
    fn name(&mut self) -> Result<String, String> {
        let n: String = self.rest().chars().take_while(|c| c.is_alphanumeric() || matches!(c, '-' | '_' | ':' | '.')).collect();
        if n.is_empty() { return Err(format!("name expected at byte {}", self.i)) }
        self.i += n.len();
        Ok(n)
    }
    fn misc(&mut self) -> Result<(), String> {
        loop {
            self.ws();
            if self.eat("<!--") { self.i += self.rest().find("-->").ok_or("unclosed comment")? + 3; continue }
            if self.eat("<?") { self.i += self.rest().find("?>").ok_or("unclosed instruction")? + 2; continue }
            if self.eat("<!DOCTYPE") { self.i += self.rest().find('>').ok_or("unclosed doctype")? + 1; continue }
            return Ok(());
        }
    }
    fn element(&mut self, depth: usize) -> Result<Node, String> {
        if depth > 200 { return Err("nested too deep".into()) }
        if !self.eat("<") { return Err(format!("element expected at byte {}", self.i)) }
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let before = self.i;
            self.ws();
            if self.eat("/>") { return Ok(Node { name, attrs, kids: vec![] }) }
            if self.eat(">") { break }
            if self.i == before { return Err(format!("white space expected before an attribute at byte {}", self.i)) }
            let k = self.name()?;
            self.ws();
            if !self.eat("=") { return Err(format!("= expected at byte {}", self.i)) }
            self.ws();
            let q = if self.eat("\"") { '"' } else if self.eat("'") { '\'' } else { return Err(format!("quote expected at byte {}", self.i)) };
            let e = self.rest().find(q).ok_or("unclosed attribute")?;
            let v = &self.rest()[..e];
            if v.contains('<') { return Err("< in an attribute".into()) }
            let v = unescape(v)?;
            self.i += e + 1;
            if attrs.iter().any(|a| a.0 == k) { return Err(format!("attribute {k} twice")) }
            attrs.push((k, v));
        }
        let mut kids = vec![];
        loop {
            let text = self.rest().find('<').ok_or(format!("<{name}> is not closed"))?;
            self.i += text;
            self.misc()?;
            if self.eat("</") {
                let n = self.name()?;
                if n != name { return Err(format!("<{name}> closed by </{n}>")) }
                self.ws();
                if !self.eat(">") { return Err("> expected".into()) }
                return Ok(Node { name, attrs, kids });
            }
            if self.rest().starts_with('<') { kids.push(self.element(depth + 1)?) }
        }
    }
}
/// What the text of an attribute stands for: white space is read as blanks unless it is
/// written as references.
fn unescape(v: &str) -> Result<String, String> {
    let v = v.replace("\r\n", " ").replace(['\t', '\n', '\r'], " ");
    let mut out = String::new();
    let mut rest = v.as_str();
    while let Some(a) = rest.find('&') {
        out.push_str(&rest[..a]);
        let e = rest[a..].find(';').ok_or_else(|| format!("& without a ; in {}", crate::util::show(&v)))? + a;
        let name = &rest[a + 1..e];
        let code = |t: &str, r| u32::from_str_radix(t, r).ok().filter(|_| !t.starts_with('+')).and_then(char::from_u32).filter(|c| *c >= ' ' || matches!(c, '\t' | '\n' | '\r'));
        out.push(match name {
            "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'',
            n => match n.strip_prefix("#x") { Some(h) => code(h, 16), None => n.strip_prefix('#').and_then(|d| code(d, 10)) }.ok_or_else(|| format!("unknown reference &{n};"))?,
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    Ok(out)
}
pub fn xml(s: &str) -> Result<Node, String> {
    if let Some(c) = s.chars().find(|c| *c < ' ' && !matches!(c, '\t' | '\n' | '\r') || matches!(c, '\u{fffe}' | '\u{ffff}')) { return Err(format!("character {c:?} cannot be in a document")) }
    let mut x = Xml { s, i: 0 };
    x.misc()?;
    let n = x.element(0)?;
    x.misc()?;
    if x.i != s.len() { return Err(format!("text after the document at byte {}", x.i)) }
    Ok(n)
}

/// a b c d e f of an SVG matrix
pub type M = [f64; 6];
pub const ID: M = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];
pub fn mul(m: M, n: M) -> M {
    [m[0] * n[0] + m[2] * n[1], m[1] * n[0] + m[3] * n[1], m[0] * n[2] + m[2] * n[3], m[1] * n[2] + m[3] * n[3],
     m[0] * n[4] + m[2] * n[5] + m[4], m[1] * n[4] + m[3] * n[5] + m[5]]
}
pub fn app(m: M, p: P) -> P { (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5]) }

fn num(t: &str) -> Result<f64, String> {
    let ok = t.chars().all(|c| c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E'));
    let v: f64 = if ok { t.parse().map_err(|_| format!("bad number {t:?}"))? } else { return Err(format!("bad number {t:?}")) };
    if !v.is_finite() { return Err(format!("number not finite {t:?}")) }
    Ok(v)
}
fn nums(t: &str) -> Result<Vec<f64>, String> {
    t.split(|c: char| c == ',' || c.is_ascii_whitespace()).filter(|t| !t.is_empty()).map(num).collect()
}

pub fn transform(t: &str) -> Result<M, String> {
    let mut m = ID;
    let mut rest = t.trim_matches(|c: char| c == ',' || c.is_ascii_whitespace());
    while !rest.is_empty() {
        let o = rest.find('(').ok_or("bad transform")?;
        let c = rest.find(')').ok_or("bad transform")?;
        if c < o { return Err("bad transform".into()) }
        let a = nums(&rest[o + 1..c])?;
        let n = match (rest[..o].trim(), a.as_slice()) {
            ("translate", [x]) => [1.0, 0.0, 0.0, 1.0, *x, 0.0],
            ("translate", [x, y]) => [1.0, 0.0, 0.0, 1.0, *x, *y],
            ("scale", [s]) => [*s, 0.0, 0.0, *s, 0.0, 0.0],
            ("scale", [x, y]) => [*x, 0.0, 0.0, *y, 0.0, 0.0],
            ("matrix", [a, b, c, d, e, f]) => [*a, *b, *c, *d, *e, *f],
            ("rotate", [d]) => { let (s, c) = d.to_radians().sin_cos(); [c, s, -s, c, 0.0, 0.0] }
            (n, a) => return Err(format!("unknown transform {n} with {} numbers", a.len())),
        };
        m = mul(m, n);
        rest = rest[c + 1..].trim_start_matches(|c: char| c == ',' || c.is_ascii_whitespace());
    }
    Ok(m)
}

/// Points of a path's data; only move-to and line-to may occur.
pub fn path_data(d: &str) -> Result<Vec<Vec<P>>, String> {
    // split into commands and numbers
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        let letter = c.is_ascii_alphabetic() && c != 'e' && c != 'E';
        let minus = (c == '-' || c == '+') && !cur.is_empty() && !cur.ends_with(['e', 'E']);
        if c == ',' || c.is_ascii_whitespace() || letter || minus { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } }
        if letter { toks.push(c.to_string()) } else if c != ',' && !c.is_ascii_whitespace() { cur.push(c) }
    }
    if !cur.is_empty() { toks.push(cur) }
    let mut out: Vec<Vec<P>> = vec![];
    let mut pos: P = (0.0, 0.0);
    let mut command = ' ';
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        if t.len() == 1 && t.chars().all(|c| c.is_ascii_alphabetic()) { command = t.chars().next().unwrap(); i += 1; if i >= toks.len() { return Err("path data ends with a command".into()) } }
        let mut arg = || -> Result<f64, String> { let v = num(toks.get(i).ok_or("path data ends early")?)?; i += 1; Ok(v) };
        match command {
            'M' => { pos = (arg()?, arg()?); out.push(vec![pos]); command = 'L'; continue }
            'm' => { pos = (pos.0 + arg()?, pos.1 + arg()?); out.push(vec![pos]); command = 'l'; continue }
            'L' => pos = (arg()?, arg()?),
            'l' => pos = (pos.0 + arg()?, pos.1 + arg()?),
            'H' => pos.0 = arg()?,
            'h' => pos.0 += arg()?,
            'V' => pos.1 = arg()?,
            'v' => pos.1 += arg()?,
            c => return Err(format!("unexpected path command {c:?}")),
        }
        out.last_mut().ok_or("path data does not start with a move")?.push(pos);
    }
    Ok(out)
}

/// What the document shows: each path's own points, and where they land on the canvas.
#[derive(Debug)]
pub struct Shown { pub width: f64, pub height: f64, pub paths: Vec<(Vec<P>, Vec<P>, M)> }

/// Is it something to paint with? None: it is no colour at all.
fn colour(s: &str) -> Option<bool> {
    const NAMES: &str = " currentcolor inherit context-stroke context-fill aliceblue antiquewhite aqua aquamarine azure beige bisque black blanchedalmond blue blueviolet brown burlywood cadetblue chartreuse chocolate coral cornflowerblue cornsilk crimson cyan darkblue darkcyan darkgoldenrod darkgray darkgreen darkgrey darkkhaki darkmagenta darkolivegreen darkorange darkorchid darkred darksalmon darkseagreen darkslateblue darkslategray darkslategrey darkturquoise darkviolet deeppink deepskyblue dimgray dimgrey dodgerblue firebrick floralwhite forestgreen fuchsia gainsboro ghostwhite gold goldenrod gray green greenyellow grey honeydew hotpink indianred indigo ivory khaki lavender lavenderblush lawngreen lemonchiffon lightblue lightcoral lightcyan lightgoldenrodyellow lightgray lightgreen lightgrey lightpink lightsalmon lightseagreen lightskyblue lightslategray lightslategrey lightsteelblue lightyellow lime limegreen linen magenta maroon mediumaquamarine mediumblue mediumorchid mediumpurple mediumseagreen mediumslateblue mediumspringgreen mediumturquoise mediumvioletred midnightblue mintcream mistyrose moccasin navajowhite navy oldlace olive olivedrab orange orangered orchid palegoldenrod palegreen paleturquoise palevioletred papayawhip peachpuff peru pink plum powderblue purple rebeccapurple red rosybrown royalblue saddlebrown salmon sandybrown seagreen seashell sienna silver skyblue slateblue slategray slategrey snow springgreen steelblue tan teal thistle tomato turquoise violet wheat white whitesmoke yellow yellowgreen ";
    let s = s.trim().to_ascii_lowercase();
    if s == "none" || s == "transparent" { return Some(false) }
    let hex = s.strip_prefix('#').is_some_and(|h| matches!(h.len(), 3 | 4 | 6 | 8) && h.chars().all(|c| c.is_ascii_hexdigit()));
    let call = s.ends_with(')') && ["rgb(", "rgba(", "hsl(", "hsla(", "url("].iter().any(|p| s.starts_with(p));
    (hex || call || !s.is_empty() && !s.contains(' ') && NAMES.contains(&format!(" {s} "))).then_some(true)
}
/// A presentation setting, as the style says or else the attribute.
fn setting(n: &Node, name: &str) -> Option<String> {
    let style = n.attr("style").unwrap_or("").split(';').filter_map(|d| d.split_once(':')).filter(|d| d.0.trim() == name).last().map(|d| d.1.trim().to_ascii_lowercase());
    style.or_else(|| n.attr(name).map(|v| v.trim().to_ascii_lowercase()))
}
pub fn svg(doc: &str) -> Result<Shown, String> {
    let root = xml(doc)?;
    if root.name != "svg" { return Err(format!("root element is <{}>", root.name)) }
    if root.attr("xmlns") != Some("http://www.w3.org/2000/svg") { return Err("no SVG name space".into()) }
    if let Some(v) = root.attr("version") { if !matches!(v.trim(), "1.0" | "1.1" | "1.2" | "2" | "2.0") { return Err(format!("there is no version {v} of SVG")) } }
    let dim = |n: &str| -> Result<f64, String> { num(root.attr(n).ok_or(format!("no {n}"))?.trim_end_matches("px")) };
    let mut sh = Shown { width: dim("width")?, height: dim("height")?, paths: vec![] };
    let mut base = ID;
    if let Some(vb) = root.attr("viewBox") {
        let v = vb.split(|c: char| c == ',' || c.is_ascii_whitespace()).filter(|t| !t.is_empty()).map(num).collect::<Result<Vec<f64>, _>>()?;
        if v.len() != 4 || v[2] < 0.0 || v[3] < 0.0 { return Err(format!("bad viewBox {vb:?}")) }
        // a side of zero shows nothing, but so does the canvas then
        if v[2] > 0.0 && v[3] > 0.0 {
            let (sx, sy) = (sh.width / v[2], sh.height / v[3]);
            base = match root.attr("preserveAspectRatio").unwrap_or("xMidYMid").trim() {
                "none" => [sx, 0.0, 0.0, sy, -v[0] * sx, -v[1] * sy],
                "xMidYMid" | "xMidYMid meet" => {
                    let k = sx.min(sy);
                    [k, 0.0, 0.0, k, (sh.width - v[2] * k) / 2.0 - v[0] * k, (sh.height - v[3] * k) / 2.0 - v[1] * k]
                }
                o => return Err(format!("preserveAspectRatio {o:?} is not known")),
            };
        }
    }
    fn walk(n: &Node, m: M, (visible, filled, gone, hidden): (bool, bool, bool, bool), sh: &mut Shown) -> Result<(), String> {
        let visible = match (n.attr("stroke"), n.attr("style"), n.attr("class")) {
            (_, Some(st), _) if st.contains("stroke") => !st.replace(' ', "").contains("stroke:none"),
            (_, _, Some(_)) => true,
            // what is no colour counts as if it was not there
            (Some(s), _, _) => colour(s).unwrap_or(visible),
            _ => visible,
        };
        let filled = match (n.attr("fill"), n.attr("style"), n.attr("class")) {
            (_, Some(st), _) if st.contains("fill:") || st.contains("fill ") => !st.replace(' ', "").contains("fill:none") && !st.replace(' ', "").contains("fill:transparent"),
            (_, _, Some(_)) => false,
            (Some(s), _, _) => colour(s).unwrap_or(filled) && !matches!(n.attr("fill-opacity").map(num), Some(Ok(o)) if o == 0.0),
            _ => filled,
        };
        if let Some(w) = n.attr("stroke-width") { if !num(w.trim().trim_end_matches("px").trim_end_matches('%')).is_ok_and(|w| w > 0.0) { return Err(format!("lines have the width {w:?}")) } }
        let m = match n.attr("transform") { Some(t) => mul(m, transform(t)?), None => m };
        // what is kept for use elsewhere is not shown, and what is hidden can't be seen
        if matches!(n.name.as_str(), "defs" | "symbol" | "marker" | "pattern" | "mask" | "clipPath" | "metadata" | "title" | "desc") { return Ok(()) }
        let mut gone = gone;
        if setting(n, "display").is_some_and(|v| v == "none") || ["opacity", "stroke-opacity"].iter().any(|a| setting(n, a).is_some_and(|v| num(v.trim_end_matches('%')).is_ok_and(|o| o <= 0.0))) { gone = true }
        let hidden = match setting(n, "visibility").as_deref() { Some("hidden" | "collapse") => true, Some("visible") => false, _ => hidden };
        if n.name == "path" && n.attr("d").is_some() && (gone || hidden) { return Err("a path is drawn but hidden".into()) }
        if n.name == "path" {
            if let Some(d) = n.attr("d") {
                if !visible { return Err("a path is drawn without any stroke".into()) }
                if filled && path_data(d)?.iter().any(|p| p.len() > 2) { return Err("what a path surrounds is filled".into()) }
                for p in path_data(d)? { let q = p.iter().map(|p| app(m, *p)).collect(); sh.paths.push((p, q, m)) }
            }
        }
        for a in &n.attrs { if a.1.contains("NaN") || a.1.contains("inf") { return Err(format!("number not finite in {}={:?}", a.0, a.1)) } }
        for k in &n.kids { walk(k, m, (visible, filled, gone, hidden), sh)? }
        Ok(())
    }
    walk(&root, base, (false, true, false, false), &mut sh)?;
    Ok(sh)
}

pub fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol }
pub fn near_p(a: P, b: P, tol: f64) -> bool { near(a.0, b.0, tol) && near(a.1, b.1, tol) }

/// The smallest box around all points: min x, max x, min y, max y.
pub fn bbox(paths: &[Vec<P>]) -> Option<(f64, f64, f64, f64)> {
    let mut b: Option<(f64, f64, f64, f64)> = None;
    for p in paths.iter().flatten() {
        b = Some(match b { None => (p.0, p.0, p.1, p.1), Some(b) => (b.0.min(p.0), b.1.max(p.0), b.2.min(p.1), b.3.max(p.1)) });
    }
    b
}

/// Does the document show exactly these paths, as the property asks? `tol` is for the paths' own
/// coordinates. `spare` allows a final single-point path at that position.
pub fn check_svg(doc: &str, paths: &[Vec<P>], spare: Option<P>, w: usize, h: usize, tol: f64) -> Result<(), String> {
    let sh = svg(doc)?;
    let (w, h) = (w as f64, h as f64);
    if sh.width != w || sh.height != h { return Err(format!("canvas is {} by {} instead of {w} by {h}", sh.width, sh.height)) }
    let want: Vec<&Vec<P>> = paths.iter().filter(|p| !p.is_empty()).collect();
    let mut got = sh.paths.iter().collect::<Vec<_>>();
    if let Some(s) = spare {
        if got.len() == want.len() + 1 {
            let l = got.last().unwrap();
            if l.0.len() == 1 && near_p(l.0[0], s, tol) { got.pop(); }
        }
    }
    if got.len() != want.len() { return Err(format!("shows {} paths instead of {}", got.len(), want.len())) }
    for (k, (g, x)) in got.iter().zip(&want).enumerate() {
        if g.0.len() != x.len() { return Err(format!("path {k} has {} points instead of {}", g.0.len(), x.len())) }
        for (i, (a, b)) in g.0.iter().zip(x.iter()).enumerate() {
            if !near_p(*a, *b, tol) { return Err(format!("path {k} point {i} is {a:?} instead of {b:?}")) }
        }
    }
    // placement, judged on everything shown
    let own: Vec<Vec<P>> = sh.paths.iter().map(|p| p.0.clone()).collect();
    let on: Vec<Vec<P>> = sh.paths.iter().map(|p| p.1.clone()).collect();
    let Some(b) = bbox(&own) else { return Ok(()) };
    let c = bbox(&on).unwrap();
    let m = sh.paths.iter().find(|p| !p.0.is_empty()).unwrap().2;
    for p in &sh.paths { if (0..6).any(|i| (p.2[i] - m[i]).abs() > 1e-9 * (1.0 + m[i].abs())) { return Err("paths are placed differently from one another".into()) } }
    // rounding: coordinates far from the origin lose digits when they are scaled up
    let far = [b.0, b.1, b.2, b.3].iter().fold(0f64, |a, x| a.max(x.abs()));
    let eps = 1e-6 + 1e-9 * w.max(h) + 1e-12 * far * (m[0].abs() + m[3].abs());
    if c.0 < -eps || c.2 < -eps || c.1 > w + eps || c.3 > h + eps { return Err(format!("drawn box x {}..{} y {}..{} leaves the {w} by {h} canvas", c.0, c.1, c.2, c.3)) }
    if !near((c.0 + c.1) / 2.0, w / 2.0, eps) || !near((c.2 + c.3) / 2.0, h / 2.0, eps) {
        return Err(format!("drawn box x {}..{} y {}..{} is not centred on the {w} by {h} canvas", c.0, c.1, c.2, c.3));
    }
    if b.0 == b.1 && b.2 == b.3 { return Ok(()) }
    if m[1].abs() > 1e-12 * (m[0].abs() + 1e-300) || m[2].abs() > 1e-12 * (m[0].abs() + 1e-300) { return Err("drawing is sheared or turned".into()) }
    if w > 0.0 && h > 0.0 {
        if m[0] <= 0.0 { return Err(format!("horizontal scale is {}", m[0])) }
        if m[3] >= 0.0 { return Err(format!("up is not drawn as up: vertical scale {}", m[3])) }
        let fills = near(c.1 - c.0, w, eps) || near(c.3 - c.2, h, eps);
        if !fills { return Err(format!("drawn box {} by {} fills neither side of the {w} by {h} canvas", c.1 - c.0, c.3 - c.2)) }
    }
    if !near(m[0].abs(), m[3].abs(), 1e-9 * m[0].abs()) { return Err(format!("scales differ: {} and {}", m[0], m[3])) }
    Ok(())
}
