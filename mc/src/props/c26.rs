//! C26: what single SVG elements say.
use crate::{bridge::*, engine::*, model::{self, Node, P}, util::*};
use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::interpretation::svg::{Svg, SvgCircle, SvgDecorations, SvgElement, SvgGroup, SvgPath, SvgScale, SvgTransformEl, SvgTranslate};

/// The only element of a text.
fn one(text: &str, name: &str, input: &dyn Fn() -> String) -> Result<Node, Fail> {
    let bad = |e: String| Fail { input: input(), what: format!("{e}; text {}", show(text)) };
    let n = model::xml(text).map_err(bad)?;
    if n.name != name { return fail(input(), format!("is a <{}> instead of a <{name}>", n.name)) }
    // It has to go well into a document, too.
    let d = model::xml(&format!("<svg>{text}{text}</svg>")).map_err(bad)?;
    if d.kids.len() != 2 || d.kids.iter().any(|k| k.name != name || k.attrs != n.attrs || k.kids.len() != n.kids.len()) { return fail(input(), format!("text {} is another element inside a document", show(text))) }
    Ok(n)
}
/// Is this attribute the number? The document may round where nobody can see it.
fn same(a: Option<&str>, v: f64, rel: f64) -> bool {
    let Some(a) = a else { return false };
    if !a.chars().all(|c| c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E')) { return false }
    match a.parse::<f64>() { Ok(x) => (x - v).abs() <= rel * v.abs(), Err(_) => false }
}
/// Are fill, stroke and stroke width given exactly once each, as set, or left out?
fn decorated(n: &Node, d: &SvgDecorations, input: &dyn Fn() -> String) -> Case {
    for (name, want) in [("fill", &d.fill), ("stroke", &d.stroke)] {
        if n.attr(name) != want.as_deref() { return fail(input(), format!("{name} is {:?} instead of {want:?}", n.attr(name))) }
    }
    match (n.attr("stroke-width"), d.stroke_width) {
        (None, None) => Ok(()),
        (Some(a), Some(w)) if same(Some(a), w as f64, 1e-6) || a.parse::<f32>() == Ok(w) => Ok(()),
        (a, w) => fail(input(), format!("stroke-width is {a:?} instead of {w:?}")),
    }
}
fn only(n: &Node, names: &[&str], input: &dyn Fn() -> String) -> Case {
    match n.attrs.iter().find(|a| !names.contains(&a.0.as_str())) { Some(a) => fail(input(), format!("unexpected {}={:?}", a.0, a.1)), None => Ok(()) }
}

fn circle(c: &SvgCircle, input: &dyn Fn() -> String) -> Case {
    let text = calm(input, || c.to_svg())?;
    if c.to_svg() != text || c.clone().to_svg() != text { return fail(input(), "the text differs the second time") }
    let n = one(&text, "circle", input)?;
    for (a, v) in [("cx", c.centre.x()), ("cy", c.centre.y()), ("r", c.radius)] {
        if !same(n.attr(a), v, 1e-9) { return fail(input(), format!("{a} is {:?} instead of {v:?}", n.attr(a))) }
    }
    decorated(&n, &c.decorations, input)?;
    only(&n, &["cx", "cy", "r", "fill", "stroke", "stroke-width"], input)
}
fn decorations(d: &SvgDecorations, input: &dyn Fn() -> String) -> Case {
    let attrs = calm(input, || d.to_attr_string())?;
    if d.to_attr_string() != attrs || d.clone().to_attr_string() != attrs { return fail(input(), "the text differs the second time") }
    let n = one(&format!("<x {attrs}/>"), "x", input)?;
    decorated(&n, d, input)?;
    only(&n, &["fill", "stroke", "stroke-width"], input)?;
    circle(&SvgCircle { centre: Point::new(1.0, -2.0), radius: 3.0, decorations: d.clone() }, input)
}

const PIECES: [&str; 27] = ["\"", "'", "<", ">", "&", ";", "=", "/", "#", "a", "none", " ", "é", "😀", "&amp;", "&quot;", "&#34;", "]]>", "-->", "<!--", "\\", "{}", "%", "\u{a0}", "\n", "\t", "\r"];
fn texts(tier: Tier) -> Family {
    let s = Seqs::new(PIECES.len(), 0, tier.pick(3, 4));
    Family::new("every text as fill and stroke", s.size(), move |i, ctx| {
        let t: String = s.get(i).into_iter().map(|k| PIECES[k]).collect();
        let input = || format!("decorations with the text {}", show(&t));
        for (fill, stroke, stroke_width) in [(Some(t.clone()), None, None), (None, Some(t.clone()), Some(2.0)), (Some(t.clone()), Some(t.clone()), None), (Some("red".into()), Some(t.clone()), Some(0.5))] {
            decorations(&SvgDecorations { fill, stroke, stroke_width }, &input)?;
        }
        ctx.done(hash(&t), 4);
        ctx.sample(|| t.clone());
        Ok(())
    })
}
/// One character at a time, at every place of the text.
fn characters() -> Family {
    let all: Vec<char> = (' '..='\u{2fff}').chain(('\u{d7f0}'..='\u{e010}').filter(|c| c.is_alphanumeric() || *c as u32 >= 0xe000)).chain('\u{fd00}'..='\u{fffd}').chain('\u{10000}'..='\u{10100}').chain(['\u{10ffff}'])
        .filter(|c| !c.is_control()).chain(['\t', '\n', '\r']).collect();
    Family::new("every character in a text", all.len() as u64, move |i, ctx| {
        let c = all[i as usize];
        let input = || format!("decorations with the character {c:?}");
        for t in [format!("{c}"), format!("a{c}"), format!("{c}b"), format!("a{c}{c}b")] {
            decorations(&SvgDecorations { fill: Some(t.clone()), stroke: None, stroke_width: None }, &input)?;
            decorations(&SvgDecorations { fill: None, stroke: Some(t), stroke_width: None }, &input)?;
        }
        ctx.done(hash(&c), 8);
        Ok(())
    })
}
fn long_texts(tier: Tier) -> Family {
    let l = lengths(tier.pick(600, 3000), 1 << 17);
    Family::new("texts of every length", l.len() as u64 * 3, move |i, ctx| {
        let (n, k) = (l[(i / 3) as usize], i % 3);
        let t = match k { 0 => "x".repeat(n), 1 => "é".repeat(n), _ => "\"&<".chars().cycle().take(n).collect() };
        decorations(&SvgDecorations { fill: Some(t.clone()), stroke: Some(t), stroke_width: Some(1.0) }, &|| format!("texts of {n} characters, kind {k}"))?;
        ctx.done(hash(&(n, k)), 1);
        Ok(())
    })
}

/// Every sign and exponent with eight mantissas each: finite ones only.
fn doubles() -> Vec<f64> {
    (0..4096u64).flat_map(|e| [0, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000, 0x7_ffff_ffff_ffff, 0x1_2345_6789_abcd, 0x9_9999_9999_999a, 0x2_0000_0000_0000].map(|m| f64::from_bits(e << 52 | m))).filter(|v| v.is_finite()).collect()
}
fn circles() -> Family {
    let d = doubles();
    let mut r = d.clone();
    r.extend([f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    Family::new("every circle", r.len() as u64, move |i, ctx| {
        let v = r[i as usize];
        let input = || format!("a circle of radius {v:?}");
        for (place, at) in [(Point::new(1.5, -0.25), "a point"), (Point::from(Vector::new(0.0, 7.0)), "a vector's point")] {
            match calm(input, || SvgCircle::build(place, v))? {
                Ok(_) if v.is_nan() || v < 0.0 => return fail(input(), "was built"),
                Err(e) if v >= 0.0 => return fail(input(), format!("was refused: {e}")),
                Err(e) => if e.to_string().trim().is_empty() { return fail(input(), "was refused without a word") },
                Ok(c) => {
                    if c.radius != v || c.centre != place { return fail(input(), format!("is at {:?} with radius {} instead of at {at}", c.centre, c.radius)) }
                    if c.decorations.fill.is_some() || c.decorations.stroke.as_deref() != Some("black") || c.decorations.stroke_width.is_some() { return fail(input(), format!("is decorated by {:?}", c.decorations)) }
                    if v.is_finite() { circle(&c, &input)? }
                }
            }
        }
        match SvgCircle::build(Vector::new(-3.0, 4.0), v) { Ok(c) if c.centre != Point::new(-3.0, 4.0) => return fail(input(), "is not where the vector ends"), Err(_) if v >= 0.0 => return fail(input(), "was refused at a vector"), _ => {} }
        if v.is_finite() {
            circle(&SvgCircle { centre: Point::new(v, -v), radius: v.abs(), decorations: SvgDecorations::default() }, &|| format!("a circle at {v:?}, {:?} of radius {:?}", -v, v.abs()))?;
            circle(&SvgCircle { centre: Point::new(3.0, v), radius: 2.0, ..Default::default() }, &|| format!("a default circle at 3, {v:?}"))?;
            path(&[vec![(v, -v)], vec![(0.0, v), (v, v), (1.0, 2.0)]].concat(), &|| format!("a path through {v:?}"))?;
        }
        ctx.done(hash(&v.to_bits()), 6);
        Ok(())
    })
}
fn widths() -> Family {
    Family::new("every stroke width", 512 * 8, |i, ctx| {
        let v = f32::from_bits(((i / 8) as u32) << 23 | [0, 1, 0x7f_ffff, 0x40_0000, 0x3f_ffff, 0x12_3456, 0x4c_cccd, 0x2a_aaaa][(i % 8) as usize]);
        if !v.is_finite() { return Ok(()) }
        let input = || format!("decorations of stroke width {v:?}");
        for fill in [None, Some("none".to_string())] { for stroke in [None, Some("black".to_string())] {
            decorations(&SvgDecorations { fill: fill.clone(), stroke, stroke_width: Some(v) }, &input)?;
        } }
        ctx.done(hash(&v.to_bits()), 4);
        Ok(())
    })
}

fn path(p: &[P], input: &dyn Fn() -> String) -> Case {
    let given: Path = p.iter().map(|p| Point::new(p.0, p.1)).collect();
    let s = calm(input, || SvgPath::from(given.clone()))?;
    if s.fill().is_some() || s.stroke().is_some() { return fail(input(), "is filled or stroked by itself") }
    if s.len() != given.len() || s.is_empty() != given.is_empty() || !s.iter().zip(given.iter()).all(|(a, b)| a.x() == b.x() && a.y() == b.y()) { return fail(input(), "holds other points") }
    let text = calm(input, || s.to_svg())?;
    if s.to_svg() != text || s.clone().to_svg() != text { return fail(input(), "the text differs the second time") }
    let n = one(&text, "path", input)?;
    only(&n, &["d"], input)?;
    let got = model::path_data(n.attr("d").unwrap_or("")).or_else(|e| fail(input(), format!("{e}; text {}", show(&text))))?;
    let want: Vec<Vec<P>> = if p.is_empty() { vec![] } else { vec![p.to_vec()] };
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b.abs();
    let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g.len() == w.len() && g.iter().zip(w).all(|(a, b)| near(a.0, b.0) && near(a.1, b.1)));
    if !ok { return fail(input(), format!("says {} instead of {}", show(&format!("{got:?}")), show(&format!("{want:?}")))) }
    Ok(())
}
const COORDS: [f64; 7] = [0.0, 5.0, -0.125, 1e-7, -123456789.5, 3.0, 0.1];
fn paths(tier: Tier) -> Family {
    let s = Seqs::new(COORDS.len() * COORDS.len(), 0, tier.pick(3, 4));
    Family::new("every short path", s.size(), move |i, ctx| {
        let p: Vec<P> = s.get(i).into_iter().map(|k| (COORDS[k / 7], COORDS[k % 7])).collect();
        path(&p, &|| format!("the path {p:?}"))?;
        ctx.done(hash(&i), 1);
        Ok(())
    })
}
fn long_paths(tier: Tier) -> Family {
    let l = lengths(tier.pick(1000, 4000), 1 << 16);
    Family::new("paths of every length", l.len() as u64, move |i, ctx| {
        let n = l[i as usize];
        let p: Vec<P> = (0..n).map(|k| (k as f64 * 0.5, ((k * 7919) % 1013) as f64 - 500.25)).collect();
        path(&p, &|| format!("a path of {n} points"))?;
        // The same point over and over, and there and back again.
        path(&vec![(1.0, 2.0); n], &|| format!("a path of {n} equal points"))?;
        path(&(0..n).map(|k| ((k % 2) as f64, 3.0)).collect::<Vec<_>>(), &|| format!("a path of {n} points to and fro"))?;
        ctx.done(n as u64, 3);
        Ok(())
    })
}

fn defaults() -> Family {
    Family::new("default elements", 1, |_, ctx| {
        decorations(&SvgDecorations::default(), &|| "default decorations".into())?;
        let c = SvgCircle::default();
        if c.centre != Point::zero() || c.radius != 5.0 { return fail("the default circle", "is elsewhere or of another size") }
        circle(&c, &|| "the default circle".into())?;
        let g: &dyn Fn() -> String = &|| "the default group".into();
        let text = calm(g, || SvgGroup::default().to_svg())?;
        let n = one(&text, "g", g)?;
        if !n.attrs.is_empty() && n.attrs.iter().any(|a| !(a.0 == "transform" && a.1.trim().is_empty())) || !n.kids.is_empty() { return fail(g(), format!("is not empty: {text}")) }
        let text = calm(|| "the default document".into(), || Svg::default().to_svg())?;
        model::check_svg(&text, &[], None, 500, 500, 0.0).or_else(|e| fail("the default document", e))?;
        if Svg::default().clone().to_svg() != text { return fail("the default document", "its clone differs") }
        let t = SvgTranslate::default();
        if model::transform(&t.to_transform()) != Ok(model::ID) { return fail("the default translation", t.to_transform()) }
        let s = SvgScale::default();
        if model::transform(&s.to_transform()) != Ok([0.0; 6]) { return fail("the default scale", s.to_transform()) }
        ctx.done(0, 6);
        Ok(())
    })
}

pub fn families(tier: Tier) -> Vec<Family> {
    vec![defaults(), texts(tier), characters(), long_texts(tier), circles(), widths(), paths(tier), long_paths(tier)]
}

pub const PROPERTY: Property = Property {
    id: "C26", level: "model_checking",
    rule: "Every text of up to the number of pieces, every character, and texts of every length as fill and stroke; every sign and exponent of a number, with eight mantissas each, as radius, coordinate and stroke width; every short path over a grid and paths of every length. Each text is parsed as XML by an independent reader and compared with what the element was made from. Distinct states are distinct elements.",
    assumptions: &["control characters other than tabs and ends of lines, which no XML document can hold, and non-finite stroke widths and points are left out"],
    families,
};
