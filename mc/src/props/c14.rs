//! C14: the SVG made from a drawing.
use crate::{bridge::*, engine::*, model::{self, Cmd, P}, util::*};
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::Interpretation;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;

/// An interpretation that draws what it is told to.
#[derive(Debug, Clone, Default)]
pub struct Given(pub Vec<Vec<P>>);
impl Interpretation for Given {
    type Item = Vec<Path>;
    fn system() -> Result<System, Error> { Ok(System::new()) }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> Result<Vec<Path>, Error> {
        Ok(self.0.iter().map(|p| p.iter().map(|p| Point::new(p.0, p.1)).collect()).collect())
    }
}

/// How far a coordinate may be off: a millionth of the drawing's extent.
fn tolerance(paths: &[Vec<P>]) -> f64 {
    match model::bbox(paths) {
        None => 1e-9,
        Some(b) => { let far = [b.0, b.1, b.2, b.3].iter().fold(0f64, |a, x| a.max(x.abs())); let e = (b.1 - b.0).max(b.3 - b.2); 1e-6 * if e > 0.0 { e } else { far } + 1e-12 * far }
    }
}

fn check(paths: &[Vec<P>], w: usize, h: usize) -> Case {
    let input = || { let t = format!("{paths:?}"); format!("paths {} on a {w} by {h} canvas", if t.len() > 300 { format!("{}... ({} paths)", &t[..200], paths.len()) } else { t }) };
    let i = SvgPathInterpretation::new_with(w, h, Given(paths.to_vec()));
    if i.width() != w || i.height() != h { return fail(input(), "the size is not kept") }
    let svg: Svg = oops(calm(input, || i.interpret(&System::new(), &ProductionString::new()))?, &input())?;
    let doc = calm(input, || svg.to_svg())?;
    if svg.to_svg() != doc { return fail(input(), "the text differs the second time") }
    model::check_svg(&doc, paths, None, w, h, tolerance(paths)).or_else(|e| fail(input(), format!("{e}; document {}", show(&doc))))
}

const POINTS: [P; 9] = [(0.0, 0.0), (5.0, 0.0), (0.0, 5.0), (-3.0, 2.5), (0.001, 7.0), (100.0, -40.0), (0.1, 0.2), (-3.0, -3.0), (5.0, 5.0)];
const SIZES: [(usize, usize); 6] = [(500, 500), (300, 100), (1, 1), (7, 1000), (0, 10), (1_000_000, 3)];

fn small(tier: Tier) -> Family {
    let s = Seqs::new(POINTS.len(), 0, tier.pick(4, 5));
    Family::new("every sequence of points, cut into paths in every way, on several canvases", s.size() * 16, move |i, ctx| {
        let pts = s.get(i / 16);
        let mask = i % 16;
        if mask >> pts.len().saturating_sub(1) != 0 { return Ok(()) }
        let mut paths: Vec<Vec<P>> = vec![vec![]];
        for (k, p) in pts.iter().enumerate() {
            paths.last_mut().unwrap().push(POINTS[*p]);
            if mask >> k & 1 == 1 { paths.push(vec![]) }
        }
        if mask & 1 == 1 { paths.insert(0, vec![]) }
        if pts.is_empty() { for p in [vec![], vec![vec![]], vec![vec![], vec![]]] { for (w, h) in SIZES { check(&p, w, h)?; } } }
        for (w, h) in SIZES { check(&paths, w, h)?; }
        ctx.done(hash(&(pts, mask)), SIZES.len() as u64);
        ctx.sample(|| format!("{paths:?} on {SIZES:?}"));
        Ok(())
    })
}

fn canvases(tier: Tier) -> Family {
    let l = lengths(tier.pick(40, 130), 1 << 53);
    let n = l.len() as u64;
    let draws: Vec<Vec<Vec<P>>> = vec![vec![vec![(0.0, 0.0), (3.0, 7.0)]], vec![vec![(1.0, 1.0)]], vec![vec![(2.0, 0.0), (2.0, 9.0)]], vec![vec![(0.0, 4.0), (9.0, 4.0)], vec![(3.0, 4.0)]], vec![vec![(0.0, 0.0), (1.0, 1.0), (2.0, 0.0)], vec![(-5.0, 0.25), (0.0, 0.0)]]];
    Family::new("every canvas size", n * n, move |i, ctx| {
        let (w, h) = (l[(i / n) as usize], l[(i % n) as usize]);
        for d in &draws { check(d, w, h)?; }
        ctx.done(hash(&(w, h)), draws.len() as u64);
        Ok(())
    })
}

fn magnitudes() -> Family {
    Family::new("drawings of every magnitude and place", 24 * 20 * 6, |i, ctx| {
        let d = digits(i, &[24, 20, 6]);
        let m = 10f64.powi(d[0] as i32 - 12);
        let off = if d[1] == 0 { 0.0 } else { (if d[1] % 2 == 0 { 1.0 } else { -1.0 }) * 3.0 * 10f64.powi(d[1] as i32 / 2 - 3) };
        // where the drawing is so far out that its coordinates keep no digits, nothing can be asked
        if off.abs() > m * 1e6 { return Ok(()) }
        let base: &[P] = match d[2] { 0 => &[(0.0, 0.0), (1.0, 0.5)], 1 => &[(0.0, 0.0), (0.0, 3.0)], 2 => &[(0.0, 0.0), (3.0, 0.0), (1.0, 0.0)], 3 => &[(0.3, 0.7)], 4 => &[(-1.0, -1.0), (1.0, 1.0), (0.0, 0.25)], _ => &[(0.0, 0.0), (1.0, 1e-5), (0.5, -1e-9)] };
        let p: Vec<P> = base.iter().map(|p| (p.0 * m + off, p.1 * m - off / 2.0)).collect();
        for (w, h) in [(500, 500), (31, 77)] { check(&[p.clone()], w, h)?; }
        ctx.done(hash(&i), 2);
        Ok(())
    })
}

/// As far as the numbers go.
fn extremes() -> Family {
    const B: [&[P]; 7] = [&[(0.0, 0.0), (1.0, 0.5)], &[(0.0, 0.0), (0.0, 3.0)], &[(0.0, 0.0), (3.0, 0.0), (1.0, 0.0)], &[(0.3, 0.7)], &[(-1.0, -1.0), (1.0, 1.0), (0.0, 0.25)], &[(0.0, 0.0), (1.0, 1e-5), (0.5, -1e-9)], &[(5.0, 5.0), (6.0, 7.0)]];
    Family::new("drawings of the largest and smallest magnitudes", 600 * B.len() as u64, |i, ctx| {
        let (e, b) = ((i % 600) as i32 - 290, B[(i / 600) as usize]);
        if e > 300 { return Ok(()) }
        let m = 10f64.powi(e);
        let p: Vec<P> = b.iter().map(|p| (p.0 * m, p.1 * m)).collect();
        for (w, h) in [(500, 500), (31, 77)] { check(&[p.clone()], w, h)?; check(&[p[..1].to_vec(), vec![], p.clone()], w, h)?; }
        ctx.done(hash(&i), 4);
        Ok(())
    })
}

fn turtle(tier: Tier) -> Family {
    const C: [&str; 7] = ["Forward", "Move", "+", "-", "[", "]", "X"];
    let s = Seqs::new(C.len(), 0, tier.pick(5, 6));
    Family::new("every turtle string", s.size(), move |i, ctx| {
        let v: Vec<&str> = s.get(i).into_iter().map(|k| C[k]).collect();
        let cmds: Vec<Cmd> = v.iter().map(|n| model::cmd(n)).collect();
        let sys = AbopSvgInterpretation::system().expect("system");
        let st = ProductionString::from(v.iter().map(|n| Symbol::build(n).unwrap()).collect::<Vec<_>>());
        for (delta, w, h) in [(90.0f32, 500, 500), (22.5, 200, 50), (180.0, 3, 400)] {
            let input = || format!("{} with angle {delta} on a {w} by {h} canvas", show(&v.join(" ")));
            let it = SvgPathInterpretation::new_with(w, h, AbopTurtleInterpretation::new(1, delta));
            let got = calm(input, || it.interpret(&sys, &st))?;
            match (got, model::turtle(&cmds, delta as f64)) {
                (Err(_), None) => {}
                (Ok(_), None) => return fail(input(), "a ] without a [ was not reported"),
                (Err(e), Some(_)) => return fail(input(), format!("failed: {e}")),
                (Ok(svg), Some((paths, end))) => {
                    let doc = calm(input, || svg.to_svg())?;
                    model::check_svg(&doc, &paths, Some(end), w, h, 1e-5).or_else(|e| fail(input(), format!("{e}; document {}", show(&doc))))?;
                }
            }
        }
        if it_settings(i) { return fail(format!("{i}"), "the run settings are not the wrapped interpretation's") }
        ctx.done(hash(&v), 3);
        Ok(())
    })
}
fn it_settings(i: u64) -> bool { SvgPathInterpretation::new_with(1, 1, AbopTurtleInterpretation::new(i as usize, 1.0)).run_settings().max_iterations != i as usize }

fn long(tier: Tier) -> Family {
    let lens = lengths(tier.pick(300, 1000), tier.pick(1 << 14, 1 << 18));
    let n = lens.len() as u64 * 4;
    Family::new("drawings of every size", n, move |i, ctx| {
        let (l, kind) = (lens[i as usize / 4], i % 4);
        let pt = |k: usize| -> P { ((k * 7919 % 1013) as f64 * 0.37 - 100.0, (k * 104_729 % 907) as f64 * 0.51 - 33.0) };
        let paths: Vec<Vec<P>> = match kind {
            0 => vec![(0..l).map(pt).collect()],
            1 => (0..l).map(|k| vec![pt(k), pt(k + 1)]).collect(),
            2 => (0..l).map(|k| if k % 3 == 0 { vec![] } else { vec![pt(k)] }).collect(),
            // the drawing's box is decided by its last point
            _ => vec![(0..l).map(|k| (k as f64, 0.0)).chain([(-1.0, 1e4)]).collect()],
        };
        check(&paths, 640, 480)?;
        if l > 1 {
            // and by any single point
            for p in [0, l / 3, l / 2, l - 1] { for far in [(-5000.0, 0.0), (5000.0, 1.0), (0.0, -5000.0), (0.0, 5000.0)] {
                let mut q: Vec<Vec<P>> = paths.clone();
                if kind == 0 { q[0][p] = far; check(&q, 640, 480)? }
                else if kind == 1 { q[p][1] = far; check(&q, 640, 480)? }
            } if l > 2000 { break } }
        }
        ctx.done(hash(&(kind, l)), 1);
        ctx.beat();
        Ok(())
    }).patience(120)
}

fn defaults() -> Family {
    Family::new("default documents", 1, |_, ctx| {
        let d = Svg::default();
        model::check_svg(&d.to_svg(), &[], None, 500, 500, 0.0).or_else(|e| fail("Svg::default()", e))?;
        let i = SvgPathInterpretation::<Given>::default();
        if (i.width(), i.height()) != (500, 500) { return fail("the default interpretation", "is not 500 by 500") }
        let i = AbopSvgInterpretation::new(30, 40);
        if (i.width(), i.height()) != (30, 40) { return fail("AbopSvgInterpretation::new(30, 40)", "does not keep its size") }
        ctx.done(1, 3);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> { vec![small(tier), canvases(tier), magnitudes(), extremes(), turtle(tier), long(tier), defaults()] }

pub const PROPERTY: Property = Property {
    id: "C14", level: "model_checking",
    rule: "Every sequence of points cut into paths in every way, every canvas size, magnitude, turtle string and drawing size of the bounds; the document is parsed, its transformations applied, and judged against the drawing. Distinct states are distinct drawings (or sizes).",
    assumptions: &["coordinates between 1e-290 and 1e300 whose extent is at least a millionth of their distance from the origin", "empty paths show nothing", "documents whose paths use move-to and line-to"],
    families,
};
