//! C31: points, vectors, boxes and paths are values.
use crate::{bridge::*, engine::*, util::*};
use rusty_systems::geometry::{BoundingBox, Path, Point, Vector};

/// Numbers of every magnitude, and those that are not quite numbers.
fn numbers() -> Vec<f64> {
    let mut v = vec![0.0, 1.0, 0.1, 1.0 / 3.0, 5.0, 22.5, 1e16 + 2.0, 123_456.789, 1e-7, 4.9e-324, f64::MIN_POSITIVE, 1e-300, 1e300, f64::MAX, f64::INFINITY, f64::EPSILON, 9_007_199_254_740_993.0, 0.30000000000000004];
    for k in 0..v.len() { v.push(-v[k]) }
    v.push(f64::NAN);
    v
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
/// Sums may lose the sign of a zero.
fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
/// Quotients may be rounded once more.
fn close(a: f64, b: f64) -> bool { eq(a, b) || (a.is_finite() && b.is_finite() && (a - b).abs() <= 1e-15 * b.abs() + 1e-323) }

fn singles() -> Family {
    let v = numbers();
    let n = v.len() as u64;
    Family::new("every point and vector", n * n, move |i, ctx| {
        let (x, y) = (v[(i / n) as usize], v[(i % n) as usize]);
        let (p, q) = (Point::new(x, y), Vector::new(x, y));
        let input = || format!("({x:?},{y:?})");
        let holds = |a: f64, b: f64| same(a, x) && same(b, y);
        if !holds(p.x(), p.y()) || !holds(q.x(), q.y()) { return fail(input(), format!("became {p:?} and {q:?}")) }
        let (p2, q2): (Point, Vector) = (Point::from(q), Vector::from(p));
        if !holds(p2.x(), p2.y()) || !holds(q2.x(), q2.y()) { return fail(input(), format!("converted became {p2:?} and {q2:?}")) }
        let (p3, q3) = (p.clone(), q.clone());
        if !holds(p3.x(), p3.y()) || !holds(q3.x(), q3.y()) { return fail(input(), "a clone holds something else") }
        let itself = !x.is_nan() && !y.is_nan();
        if (p == p2) != itself || (q == q2) != itself || (p != p2) == itself { return fail(input(), "equality with itself is wrong") }
        let (a, b) = (-p, -q);
        if !eq(a.x(), -x) || !eq(a.y(), -y) || !eq(b.x(), -x) || !eq(b.y(), -y) { return fail(input(), format!("negated is {a:?} and {b:?}")) }
        for t in [p.to_string(), q.to_string()] {
            let Some((a, b)) = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).and_then(|t| t.split_once(',')) else { return fail(input(), format!("prints as {t:?}")) };
            match (a.parse::<f64>(), b.parse::<f64>()) { (Ok(a), Ok(b)) if holds(a, b) => {} _ => return fail(input(), format!("prints as {t:?}")) }
        }
        // boxes with these edges
        let b = BoundingBox { min_x: x, max_x: y, min_y: y, max_y: x, com: p };
        let b2 = b.clone();
        if !same(b2.min_x, x) || !same(b2.max_x, y) || !same(b2.min_y, y) || !same(b2.max_y, x) || !holds(b2.com.x(), b2.com.y()) { return fail(input(), "a copy of a box has other edges") }
        if !eq(b.width(), (y - x).abs()) || !eq(b.height(), (x - y).abs()) { return fail(input(), format!("a box of this width is {} by {}", b.width(), b.height())) }
        let m = x / 2.0 + y / 2.0;
        if (x + y).is_finite() && (!close(b.center().x(), m) || !close(b.center().y(), m)) { return fail(input(), format!("a box between these has the centre {:?}", b.center())) }
        ctx.done(hash(&(x.to_bits(), y.to_bits())), 12);
        Ok(())
    })
}
fn pairs() -> Family {
    let v = numbers();
    let n = v.len() as u64;
    Family::new("arithmetic of every two points and vectors", n * n * n, move |i, ctx| {
        let d = digits(i, &[n, n, n]);
        let (x, y, z) = (v[d[0]], v[d[1]], v[d[2]]);
        // every pair of numbers meets in each coordinate
        for (a, b, c, e) in [(x, z, y, z), (z, x, z, y)] {
            let (p, q, s, t) = (Point::new(a, b), Point::new(c, e), Vector::new(a, b), Vector::new(c, e));
            let input = || format!("({a:?},{b:?}) and ({c:?},{e:?})");
            let is = |what: &str, g: (f64, f64), w: (f64, f64)| if eq(g.0, w.0) && eq(g.1, w.1) { Ok(()) } else { fail(input(), format!("{what}: {g:?} instead of {w:?}")) };
            let pp = |p: Point| (p.x(), p.y());
            let vv = |v: Vector| (v.x(), v.y());
            let (plus, minus) = ((a + c, b + e), (a - c, b - e));
            is("point + point", pp(p + q), plus)?;
            is("point + vector", pp(p + t), plus)?;
            is("vector + vector", vv(s + t), plus)?;
            is("point - point", pp(p - q), minus)?;
            is("point - vector", pp(p - t), minus)?;
            is("vector - vector", vv(s - t), minus)?;
            let g = p / c;
            if !close(g.x(), a / c) || !close(g.y(), b / c) { return fail(input(), format!("the first divided by {c:?} is {g:?}")) }
            let equal = a == c && b == e;
            if (p == q) != equal || (q == p) != equal || (s == t) != equal || (p != q) == equal || (s != t) == equal { return fail(input(), format!("are equal: {}", p == q)) }
        }
        ctx.done(hash(&d), 18);
        Ok(())
    })
}
fn named() -> Family {
    Family::new("named values", 1, |_, ctx| {
        let b = [BoundingBox::zero(), BoundingBox::default()];
        let v = [Vector::zero(), Vector::default()];
        let p = [Point::zero(), Point::default()];
        if b.iter().any(|b| [b.min_x, b.max_x, b.min_y, b.max_y, b.com.x(), b.com.y(), b.width(), b.height(), b.center().x(), b.center().y()].iter().any(|x| *x != 0.0)) { return fail("zero boxes", format!("are {b:?}")) }
        if v.iter().any(|v| (v.x(), v.y()) != (0.0, 0.0)) || p.iter().any(|p| (p.x(), p.y()) != (0.0, 0.0)) { return fail("zeros", format!("are {v:?} {p:?}")) }
        if Vector::up() != Vector::new(0.0, 1.0) || Vector::down() != Vector::new(0.0, -1.0) { return fail("up and down", format!("are {:?} {:?}", Vector::up(), Vector::down())) }
        if !Path::default().is_empty() || !Path::new().is_empty() || Path::new().len() != 0 || Path::new().get_start().is_some() { return fail("new paths", "are not empty") }
        ctx.done(1, 4);
        Ok(())
    })
}

// ------------------------------------------------------------------ paths

type P = (f64, f64);
const POINTS: [P; 4] = [(1.0, -2.0), (-0.0, 5e300), (f64::INFINITY, 0.1), (f64::NAN, 1.0)];
fn agrees(p: &Path, want: &[P], deep: bool, what: &dyn Fn() -> String) -> Case {
    let of = |p: &Point| (p.x(), p.y());
    let is = |g: P, w: &P| eq(g.0, w.0) && eq(g.1, w.1);
    let all = |g: Vec<P>| g.len() == want.len() && g.iter().zip(want).all(|(g, w)| is(*g, w));
    if p.len() != want.len() || p.is_empty() != want.is_empty() { return fail(what(), format!("has {} points instead of {}", p.len(), want.len())) }
    if !all(p.iter().map(of).collect()) { return fail(what(), "iterating gives other points") }
    if !deep { return Ok(()) }
    if !all(p.clone().into_iter().map(|p| of(&p)).collect()) { return fail(what(), "iterating by value gives other points") }
    if !all(p.iter().rev().map(of).collect::<Vec<_>>().into_iter().rev().collect()) { return fail(what(), "iterating backwards gives other points") }
    if !all((0..want.len()).map(|k| of(&p[k])).collect()) { return fail(what(), "indexing gives other points") }
    if !all((0..).map_while(|k| p.get(k).map(of)).collect()) { return fail(what(), "getting gives other points") }
    if p.get(usize::MAX).is_some() || quiet(|| of(&p[want.len()])).is_ok() { return fail(what(), "there are points beyond the end") }
    if p.get_start().map(of).is_some() == want.is_empty() || p.get_start().is_some_and(|g| !is(of(g), &want[0])) { return fail(what(), "the first point is another") }
    Ok(())
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Point(usize), Vector(usize), Copy, Swap, Offset, Rebuild, Append, Take }
fn histories(tier: Tier) -> Family {
    let ops = [Op::Point(0), Op::Point(1), Op::Vector(2), Op::Point(3), Op::Copy, Op::Swap, Op::Offset, Op::Rebuild, Op::Append, Op::Take];
    let s = Seqs::new(ops.len(), 0, tier.pick(5, 6));
    Family::new("every history of two paths", s.size(), move |i, ctx| {
        let h: Vec<Op> = s.get(i).into_iter().map(|k| ops[k]).collect();
        let input = || format!("the history {h:?}");
        let (mut a, mut b) = (Path::new(), Path::new());
        let (mut wa, mut wb): (Vec<P>, Vec<P>) = (vec![], vec![]);
        for op in &h {
            match op {
                Op::Point(k) => { a.push(Point::new(POINTS[*k].0, POINTS[*k].1)); wa.push(POINTS[*k]) }
                Op::Vector(k) => { a.push(Vector::new(POINTS[*k].0, POINTS[*k].1)); wa.push(POINTS[*k]) }
                Op::Copy => { b = a.clone(); wb = wa.clone() }
                Op::Swap => { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut wa, &mut wb) }
                Op::Offset => { a = a + Vector::new(0.5, -3.0); for p in &mut wa { *p = (p.0 + 0.5, p.1 - 3.0) } }
                Op::Rebuild => { a = a.iter().rev().copied().collect(); wa.reverse() }
                Op::Append => { for p in b.iter() { a.push(*p) } wa.extend(wb.iter().copied()) }
                Op::Take => { a = std::mem::take(&mut b).into_iter().skip(1).collect(); wa = std::mem::take(&mut wb).into_iter().skip(1).collect() }
            }
            agrees(&a, &wa, false, &input)?;
            agrees(&b, &wb, false, &|| format!("{}, the second path", input()))?;
        }
        agrees(&a, &wa, true, &input)?;
        agrees(&b, &wb, true, &|| format!("{}, the second path", input()))?;
        ctx.done(hash(&s.get(i)), h.len() as u64);
        ctx.sample(|| format!("{h:?}"));
        Ok(())
    })
}
fn sizes(tier: Tier) -> Family {
    let l = lengths(tier.pick(300, 1000), tier.pick(1 << 18, 1 << 21));
    Family::new("paths of every length", l.len() as u64, move |i, ctx| {
        let want: Vec<P> = (0..l[i as usize]).map(|k| (k as f64, -(k as f64) / 7.0)).collect();
        let mut a = Path::new();
        for p in &want { a.push(Point::new(p.0, p.1)) }
        let b: Path = want.iter().map(|p| Point::new(p.0, p.1)).collect();
        for p in [&a, &b, &a.clone()] { agrees(p, &want, true, &|| format!("a path of {} points", want.len()))? }
        let moved: Vec<P> = want.iter().map(|p| (p.0 - 1.0, p.1 + 0.125)).collect();
        agrees(&(b + Vector::new(-1.0, 0.125)), &moved, true, &|| format!("a path of {} points, offset", want.len()))?;
        agrees(&a, &want, false, &|| format!("a path of {} points", want.len()))?;
        ctx.done(hash(&i), 5);
        Ok(())
    })
}

/// Paths moved by every vector: each point moves as it would alone, wherever it stands.
fn moved() -> Family {
    let v = numbers();
    let n = v.len() as u64;
    Family::new("short paths moved by every vector", n * n * 9, move |i, ctx| {
        let d = digits(i, &[n, n, 9]);
        let (x, z) = (v[d[0]], v[d[1]]);
        for at in 0..=d[2] {
            let want: Vec<P> = (0..=d[2]).map(|k| if k == at { (x, -x) } else { (k as f64, 0.1) }).collect();
            let p: Path = want.iter().map(|p| Point::new(p.0, p.1)).collect();
            for m in [(z, 1.0), (-0.5, z)] {
                let want: Vec<P> = want.iter().map(|p| (p.0 + m.0, p.1 + m.1)).collect();
                agrees(&(p.clone() + Vector::new(m.0, m.1)), &want, false, &|| format!("{p:?} moved by {m:?}"))?;
            }
        }
        ctx.done(hash(&d), 2 * d[2] as u64 + 2);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![named(), singles(), pairs(), moved(), histories(tier), sizes(tier)] }

pub const PROPERTY: Property = Property {
    id: "C31", level: "model_checking",
    rule: "Every pair of numbers of every magnitude, infinities and not-a-number as coordinates of points, vectors and boxes, every arithmetic operation on every two of them; every history of two paths to the depth compared with two lists; short paths moved by every vector; paths of every length. Distinct states are distinct coordinates, histories and lengths.",
    assumptions: &["quotients may differ in the last digit", "the sign of a zero that a sum or a negation gives is left open"],
    families,
};
