//! Small helpers between the reference models (numbers) and the library (symbols).
use crate::engine::*;
use crate::model::Rule;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

pub struct Alpha { pub names: Vec<String>, pub syms: Vec<Symbol> }
impl Alpha {
    pub fn new(names: &[&str]) -> Alpha {
        Alpha { names: names.iter().map(|s| s.to_string()).collect(), syms: names.iter().map(|n| Symbol::build(n).expect("symbol")).collect() }
    }
    pub fn abc() -> Alpha { Alpha::new(&["A", "B", "C", "D", "E", "F", "G", "H"]) }
    pub fn many(prefix: &str, n: usize) -> Alpha {
        let names: Vec<String> = (0..n).map(|i| format!("{prefix}{i}")).collect();
        Alpha { syms: names.iter().map(|n| Symbol::build(n).expect("symbol")).collect(), names }
    }
    pub fn string(&self, s: &[u8]) -> ProductionString { ProductionString::from(s.iter().map(|c| self.syms[*c as usize]).collect::<Vec<_>>()) }
    pub fn head(&self, r: &Rule) -> ProductionHead {
        let ctx = |c: &Vec<u8>| if c.is_empty() { None } else { Some(self.string(c)) };
        ProductionHead::build(ctx(&r.left), self.syms[r.target as usize], ctx(&r.right)).expect("head")
    }
    pub fn rule(&self, r: &Rule) -> Production {
        let mut p = Production::new(self.head(r), ProductionBody::new(self.string(&r.bodies[0])));
        for b in &r.bodies[1..] { p.add_body(ProductionBody::new(self.string(b))) }
        p
    }
    /// The same rules with contexts that are there but empty instead of absent ones.
    pub fn rules_spelt(&self, r: &[Rule]) -> Vec<Production> {
        r.iter().map(|r| {
            let head = ProductionHead::build(Some(self.string(&r.left)), self.syms[r.target as usize], Some(self.string(&r.right))).expect("head");
            let mut p = Production::new(head, ProductionBody::new(self.string(&r.bodies[0])));
            for b in &r.bodies[1..] { p.add_body(ProductionBody::new(self.string(b))) }
            p
        }).collect()
    }
    pub fn rules(&self, r: &[Rule]) -> Vec<Production> { r.iter().map(|r| self.rule(r)).collect() }
    pub fn same(&self, got: &ProductionString, want: &[u8]) -> bool {
        got.len() == want.len() && got.symbols().iter().zip(want).all(|(g, w)| *g == self.syms[*w as usize])
    }
    pub fn text(&self, s: &[u8]) -> String { s.iter().map(|c| self.names[*c as usize].as_str()).collect::<Vec<_>>().join(" ") }
    pub fn rule_text(&self, r: &Rule) -> String {
        let l = if r.left.is_empty() { String::new() } else { format!("{} < ", self.text(&r.left)) };
        let g = if r.right.is_empty() { String::new() } else { format!(" > {}", self.text(&r.right)) };
        format!("{l}{}{g} -> {}", self.names[r.target as usize], r.bodies.iter().map(|b| self.text(b)).collect::<Vec<_>>().join(" | "))
    }
    pub fn rules_text(&self, r: &[Rule]) -> String { r.iter().map(|r| self.rule_text(r)).collect::<Vec<_>>().join("; ") }
}

/// Compares a derivation's result with the expected string.
pub fn expect_string(a: &Alpha, got: Result<ProductionString, Error>, want: &[u8], input: impl Fn() -> String) -> Case {
    match got {
        Ok(g) if a.same(&g, want) => Ok(()),
        Ok(g) => fail(input(), format!("gave {} instead of {}", crate::util::show(&g.to_string()), crate::util::show(&a.text(want)))),
        Err(e) => fail(input(), format!("failed ({e}) instead of giving {}", crate::util::show(&a.text(want)))),
    }
}
pub fn oops<T>(r: Result<T, Error>, input: &str) -> Result<T, Fail> { r.map_err(|e| Fail { input: input.to_string(), what: format!("failed: {e}") }) }

/// As `quiet`, as a case failure: nothing here may panic.
pub fn calm<T>(input: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    crate::util::quiet(f).map_err(|m| Fail { input: input(), what: format!("panicked: {m}") })
}
