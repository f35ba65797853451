//! C18: bounding boxes, rotations and offsets.
use crate::{bridge::*, engine::*, model::{self, near, P}, util::*};
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};

fn pt(p: P) -> Point { Point::new(p.0, p.1) }
fn show_paths(p: &[Vec<P>]) -> String { let t = format!("{p:?}"); if t.len() > 300 { format!("{}... ({} paths)", &t[..200], p.len()) } else { t } }

fn judge(got: Option<BoundingBox>, paths: &[Vec<P>], input: &str) -> Case {
    let n = paths.iter().map(|p| p.len()).sum::<usize>();
    let (b, w) = match (got, model::bbox(paths)) {
        (None, None) => return Ok(()),
        (Some(b), None) => return fail(input, format!("has no points but bounds {b:?}")),
        (None, Some(_)) => return fail(input, "has points but no bounds"),
        (Some(b), Some(w)) => (b, w),
    };
    if (b.min_x, b.max_x, b.min_y, b.max_y) != w { return fail(input, format!("bounds x {}..{} y {}..{} instead of x {}..{} y {}..{}", b.min_x, b.max_x, b.min_y, b.max_y, w.0, w.1, w.2, w.3)) }
    let big = [w.0, w.1, w.2, w.3].iter().fold(0f64, |a, x| a.max(x.abs()));
    let mean = |f: fn(&P) -> f64| paths.iter().flatten().map(|p| f(p) / n as f64).sum::<f64>();
    let (cx, cy) = (mean(|p| p.0), mean(|p| p.1));
    let tol = 1e-15 * (n as f64 + 8.0) * big;
    if !near(b.com.x(), cx, tol) || !near(b.com.y(), cy, tol) { return fail(input, format!("centre of mass {:?} instead of ({cx}, {cy})", b.com)) }
    frame(&b, input)
}

fn frame(b: &BoundingBox, input: &str) -> Case {
    let (w, h, c) = (b.max_x - b.min_x, b.max_y - b.min_y, b.center());
    let rel = |a: f64, b: f64| near(a, b, 1e-14 * b.abs());
    if !rel(b.width(), w) || !rel(b.height(), h) { return fail(input, format!("width {} height {} instead of {w} and {h}", b.width(), b.height())) }
    let big = [b.min_x, b.max_x, b.min_y, b.max_y].iter().fold(0f64, |a, x| a.max(x.abs()));
    if !near(c.x(), b.min_x / 2.0 + b.max_x / 2.0, 1e-14 * big) || !near(c.y(), b.min_y / 2.0 + b.max_y / 2.0, 1e-14 * big) { return fail(input, format!("centre {c:?} of {b:?}")) }
    Ok(())
}

/// The same path made in the ways there are.
fn made(p: &[P]) -> [Path; 2] {
    let mut a = Path::new();
    for (i, q) in p.iter().enumerate() { if i % 2 == 0 { a.push(pt(*q)) } else { a.push(Vector::new(q.0, q.1)) } }
    [a, p.iter().map(|q| pt(*q)).collect()]
}

fn is_path(p: &Path, want: &[P], tol: f64, input: &str) -> Case {
    let it: Vec<P> = p.iter().map(|q| (q.x(), q.y())).collect();
    let same = |a: &P, b: &P| near(a.0, b.0, tol) && near(a.1, b.1, tol);
    if p.len() != want.len() || it.len() != want.len() || p.is_empty() != want.is_empty() || !it.iter().zip(want).all(|(a, b)| same(a, b)) { return fail(input, format!("holds {it:?} (len {})", p.len())) }
    for k in 0..want.len() + 2 {
        let g = p.get(k).map(|q| (q.x(), q.y()));
        if g.is_some() != (k < want.len()) || g.is_some_and(|g| !same(&g, &want[k]) || (p[k].x(), p[k].y()) != g) { return fail(input, format!("point {k} is {g:?}")) }
    }
    let s = p.get_start().map(|q| (q.x(), q.y()));
    if s.is_some() != !want.is_empty() || s.is_some_and(|s| !same(&s, &want[0])) { return fail(input, format!("starts at {s:?}")) }
    let v: Vec<P> = p.clone().into_iter().map(|q| (q.x(), q.y())).collect();
    if v != it { return fail(input, format!("by value holds {v:?}")) }
    Ok(())
}

const POINTS: [P; 8] = [(0.0, 0.0), (5.0, -1.0), (-3.0, 2.5), (-3.0, -7.0), (1e-3, 4.0), (1e12, -1e12), (5.0, 9.0), (-0.25, 1e-9)];
const OFFSETS: [P; 5] = [(0.0, 0.0), (1.0, -2.0), (-0.5, 0.25), (1e6, 3.0), (-7.0, -1e6)];

fn paths(tier: Tier) -> Family {
    let s = Seqs::new(POINTS.len(), 0, tier.pick(5, 6));
    Family::new("every path: points, bounds, offsets", s.size(), move |i, ctx| {
        let p: Vec<P> = s.get(i).into_iter().map(|k| POINTS[k]).collect();
        let input = format!("path {p:?}");
        for path in made(&p) {
            is_path(&path, &p, 0.0, &input)?;
            judge(calm(|| input.clone(), || path.bounds())?, &[p.clone()], &input)?;
            for o in OFFSETS {
                let moved = path.clone() + Vector::new(o.0, o.1);
                let want: Vec<P> = p.iter().map(|q| (q.0 + o.0, q.1 + o.1)).collect();
                is_path(&moved, &want, 1e-9, &format!("{input} offset by {o:?}"))?;
            }
        }
        ctx.done(hash(&s.get(i)), 2 * (2 + OFFSETS.len() as u64));
        ctx.sample(|| input.clone());
        Ok(())
    })
}

fn collections(tier: Tier) -> Family {
    let s = Seqs::new(POINTS.len(), 0, tier.pick(4, 5));
    Family::new("every collection of paths: bounds", s.size() * 64, move |i, ctx| {
        let k = s.get(i / 64);
        let (cut, gaps) = (i % 16, i / 16 % 4);
        if cut >> k.len().saturating_sub(1) != 0 { return Ok(()) }
        let mut v: Vec<Vec<P>> = if gaps & 1 == 1 { vec![vec![]] } else { vec![] };
        for (j, q) in k.iter().enumerate() {
            if j == 0 || cut >> (j - 1) & 1 == 1 { if gaps & 2 == 2 && j > 0 { v.push(vec![]) } v.push(vec![]) }
            v.last_mut().unwrap().push(POINTS[*q]);
        }
        if gaps & 2 == 2 { v.push(vec![]) }
        let input = format!("paths {v:?}");
        let real: Vec<Path> = v.iter().map(|p| made(p)[1].clone()).collect();
        judge(calm(|| input.clone(), || real.bounds())?, &v, &input)?;
        ctx.done(hash(&(k, cut, gaps)), 1);
        Ok(())
    })
}

fn sizes(tier: Tier) -> Family {
    let l = lengths(tier.pick(300, 1000), tier.pick(1 << 17, 1 << 20));
    let n = l.len() as u64;
    Family::new("paths and collections of every size, each edge at each place", n * 4, move |i, ctx| {
        let (l, edge) = (l[(i / 4) as usize], i % 4);
        let far = [(-1e6, 0.0), (1e6, 0.0), (0.0, -1e6), (0.0, 1e6)][edge as usize];
        let base: Vec<P> = (0..l).map(|k| ((k * 7919 % 1013) as f64 * 0.37 - 100.0, (k * 104_729 % 907) as f64 * 0.51 - 33.0)).collect();
        let places: Vec<usize> = if l <= 80 { (0..l).collect() } else { vec![0, 1, l / 2, l - 2, l - 1] };
        for at in places {
            let mut p = base.clone();
            p[at] = far;
            let input = || format!("path of {l} points with the extreme {far:?} at {at}");
            judge(made(&p)[1].bounds(), &[p.clone()], &input())?;
            for cut in [1, 2, 7] {
                let v: Vec<Vec<P>> = p.chunks(cut).map(|c| c.to_vec()).collect();
                let real: Vec<Path> = v.iter().map(|p| made(p)[0].clone()).collect();
                judge(real.bounds(), &v, &format!("{} in paths of {cut}", input()))?;
            }
        }
        ctx.done(hash(&i), 4);
        ctx.beat();
        Ok(())
    })
}

fn magnitudes() -> Family {
    Family::new("coordinates of every magnitude and sign", 600 * 9, |i, ctx| {
        let m = 10f64.powi((i / 9) as i32 - 300);
        let (sx, sy) = ((i % 9 % 3) as f64 - 1.0, (i % 9 / 3) as f64 - 1.0);
        let v: Vec<Vec<P>> = vec![vec![(m * sx, m * sy), (m * 0.3, -m)], vec![], vec![(m * sy, m * 0.9)]];
        let input = format!("paths {v:?}");
        let real: Vec<Path> = v.iter().map(|p| made(p)[0].clone()).collect();
        judge(real.bounds(), &v, &input)?;
        for (r, p) in real.iter().zip(&v) { judge(r.bounds(), &[p.clone()], &input)?; }
        ctx.done(hash(&i), 4);
        Ok(())
    })
}

fn turn(v: P, deg: f64) -> P { let (s, c) = deg.to_radians().sin_cos(); (v.0 * c - v.1 * s, v.0 * s + v.1 * c) }
const VECTORS: [P; 8] = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (3.0, -4.0), (0.0, 0.0), (-1e-6, 2.0), (1e9, 1e9), (-5.0, -12.0)];

fn rotations(tier: Tier) -> Family {
    let step = tier.pick(4, 16) as i64;
    Family::new("every vector by every angle", (1440 * step as u64 + 1) * 8, move |i, ctx| {
        let (a, v) = ((i / 8) as i64 - 720 * step, VECTORS[(i % 8) as usize]);
        let deg = a as f64 / step as f64;
        let input = || format!("{v:?} turned by {deg} degrees");
        let real = Vector::new(v.0, v.1);
        let r = calm(input, || real.rotate(deg))?;
        let size = (v.0 * v.0 + v.1 * v.1).sqrt();
        let tol = 1e-12 * size;
        if !near(real.norm(), size, tol) { return fail(format!("{v:?}"), format!("length {} instead of {size}", real.norm())) }
        if !near(r.norm(), size, tol) { return fail(input(), format!("length {} instead of {size}", r.norm())) }
        let w = turn(v, deg);
        if !near(r.x(), w.0, tol) || !near(r.y(), w.1, tol) { return fail(input(), format!("{r:?} instead of {w:?}")) }
        for b in [90.0, -22.5, 180.0, 0.1, 359.0, -720.0, 45.0] {
            let (x, y) = (r.rotate(b), real.rotate(deg + b));
            if !near(x.x(), y.x(), 4.0 * tol) || !near(x.y(), y.y(), 4.0 * tol) { return fail(input(), format!("and then by {b}: {x:?}, but at once: {y:?}")) }
        }
        let back = r.rotate(-deg);
        if !near(back.x(), v.0, 4.0 * tol) || !near(back.y(), v.1, 4.0 * tol) { return fail(input(), format!("and back is {back:?}")) }
        ctx.done(hash(&i), 9);
        ctx.sample(input);
        Ok(())
    })
}

/// Angles of every magnitude, alone and next to whole turns, and many small turns that add up.
fn small_turns() -> Family {
    Family::new("angles of every magnitude", 13 * 9 * 8, |i, ctx| {
        let (k, m, v) = ((i / 72) as i32, (i / 8 % 9 + 1) as f64, VECTORS[(i % 8) as usize]);
        let d = m * 10f64.powi(-k);
        let size = (v.0 * v.0 + v.1 * v.1).sqrt();
        for sign in [1.0, -1.0] {
            let deg = d * sign;
            let input = || format!("{v:?} turned by {deg} degrees");
            let r = calm(input, || Vector::new(v.0, v.1).rotate(deg))?;
            let (w, tol) = (turn(v, deg), 4e-16 * size);
            if !near(r.x(), w.0, tol) || !near(r.y(), w.1, tol) { return fail(input(), format!("{r:?} instead of {w:?}")) }
            for base in [90.0, 180.0, 270.0, 360.0, -90.0, -360.0, 720.0, 45.0, 30.0] {
                let r = Vector::new(v.0, v.1).rotate(base + deg);
                let (w, tol) = (turn(v, base + deg), 4e-15 * size);
                if !near(r.x(), w.0, tol) || !near(r.y(), w.1, tol) { return fail(format!("{v:?} turned by {} degrees", base + deg), format!("{r:?} instead of {w:?}")) }
            }
            // a thousand of them
            let mut r = Vector::new(v.0, v.1);
            for _ in 0..1000 { r = r.rotate(deg) }
            let (w, tol) = (turn(v, deg * 1000.0), 1e-12 * size);
            if !near(r.x(), w.0, tol) || !near(r.y(), w.1, tol) { return fail(format!("{} a thousand times", input()), format!("{r:?} instead of {w:?}")) }
        }
        ctx.done(hash(&i), 2 * 1010);
        Ok(())
    })
}

const GRID: [f64; 7] = [0.0, 1.0, -1.0, 2.5, -1e3, 1e-7, 7.0];
fn arithmetic() -> Family {
    Family::new("every sum, difference, multiple and box over a grid", 7u64.pow(4), |i, ctx| {
        let d: Vec<f64> = digits(i, &[7, 7, 7, 7]).into_iter().map(|k| GRID[k as usize]).collect();
        let (p, q, u, v) = (Point::new(d[0], d[1]), Point::new(d[2], d[3]), Vector::new(d[0], d[1]), Vector::new(d[2], d[3]));
        let input = format!("({}, {}) and ({}, {})", d[0], d[1], d[2], d[3]);
        let (sum, dif) = ((d[0] + d[2], d[1] + d[3]), (d[0] - d[2], d[1] - d[3]));
        let pts = |n: &str, g: Point, w: P| if (g.x(), g.y()) == w { Ok(()) } else { fail(&input, format!("{n} is {g:?} instead of {w:?}")) };
        let vec = |n: &str, g: Vector, w: P| if (g.x(), g.y()) == w { Ok(()) } else { fail(&input, format!("{n} is {g:?} instead of {w:?}")) };
        pts("point + point", p + q, sum)?; pts("point - point", p - q, dif)?;
        pts("point + vector", p + v, sum)?; pts("point - vector", p - v, dif)?;
        vec("vector + vector", u + v, sum)?; vec("vector - vector", u - v, dif)?;
        pts("- point", -p, (-d[0], -d[1]))?; vec("- vector", -u, (-d[0], -d[1]))?;
        pts("point from vector", Point::from(u), (d[0], d[1]))?; vec("vector from point", Vector::from(p), (d[0], d[1]))?;
        if d[2] != 0.0 { let g = p / d[2]; if !near(g.x(), d[0] / d[2], 1e-14 * (d[0] / d[2]).abs()) || !near(g.y(), d[1] / d[2], 1e-14 * (d[1] / d[2]).abs()) { return fail(&input, format!("point / {} is {g:?}", d[2])) } }
        if (p == q) != (d[0] == d[2] && d[1] == d[3]) || (u == v) != (d[0] == d[2] && d[1] == d[3]) { return fail(&input, "equality is wrong") }
        if d[0] <= d[1] && d[2] <= d[3] { frame(&BoundingBox { min_x: d[0], max_x: d[1], min_y: d[2], max_y: d[3], ..Default::default() }, &input)?; }
        if i == 0 {
            let z = |g: P| if g == (0.0, 0.0) { Ok(()) } else { fail("zero", format!("{g:?}")) };
            for g in [Point::zero(), Point::default()] { z((g.x(), g.y()))? }
            for g in [Vector::zero(), Vector::default()] { z((g.x(), g.y()))? }
            if Vector::up() != Vector::new(0.0, 1.0) || Vector::down() != Vector::new(0.0, -1.0) { return fail("up and down", "are wrong") }
            for b in [BoundingBox::zero(), BoundingBox::default()] { if [b.min_x, b.max_x, b.min_y, b.max_y, b.com.x(), b.com.y()] != [0.0; 6] { return fail("the zero box", format!("{b:?}")) } }
        }
        ctx.done(hash(&i), 11);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![paths(tier), collections(tier), sizes(tier), magnitudes(), rotations(tier), small_turns(), arithmetic()] }

pub const PROPERTY: Property = Property {
    id: "C18", level: "model_checking",
    rule: "Every sequence of points cut into paths in every way, every size with the extreme point at each place, every magnitude, every angle of a fine grid over two full turns each way. Distinct states are distinct paths, collections and (vector, angle) pairs.",
    assumptions: &["coordinates are finite and their sums do not overflow", "box edges exact; other results up to floating-point rounding"],
    families,
};
