//! A circom interpreter: parses the repository's circuits from /repo's working tree, computes
//! witnesses as circom's witness calculators do and checks every rank-one constraint.
pub mod ast;
pub mod elab;
pub mod fp;
pub use ast::Kind;
pub use elab::{Lib, Tpl};
use elab::*;
use refm::U;
use std::collections::HashSet;
use std::path::{Path, PathBuf};

const CIRCOMLIB: [(&str, &str); 8] = [
    ("bitify.circom", include_str!("../lib/bitify.circom")),
    ("comparators.circom", include_str!("../lib/comparators.circom")),
    ("gates.circom", include_str!("../lib/gates.circom")),
    ("mux1.circom", include_str!("../lib/mux1.circom")),
    ("sha256/xor3.circom", include_str!("../lib/xor3.circom")),
    ("sha256/shift.circom", include_str!("../lib/shift.circom")),
    ("switcher.circom", include_str!("../lib/switcher.circom")),
    ("binsum.circom", ""),
];

/// Reads a circom file and everything it includes.
pub fn load(path: &Path) -> Result<Lib, String> {
    load_many(&[path])
}
pub fn load_many(paths: &[&Path]) -> Result<Lib, String> {
    let mut lib = Lib::default();
    let mut seen = HashSet::new();
    for p in paths {
        file(p, &mut lib, &mut seen)?;
    }
    Ok(lib)
}
fn add(u: ast::Unit, from: &str, lib: &mut Lib) -> Result<Vec<String>, String> {
    for (n, d) in u.templates {
        if lib.templates.insert(n.clone(), d).is_some() {
            return Err(format!("template {n} defined twice ({from})"));
        }
    }
    for (n, d) in u.functions {
        if lib.functions.insert(n.clone(), d).is_some() {
            return Err(format!("function {n} defined twice ({from})"));
        }
    }
    if u.main.is_some() {
        lib.main = u.main;
    }
    Ok(u.includes)
}
fn file(path: &Path, lib: &mut Lib, seen: &mut HashSet<PathBuf>) -> Result<(), String> {
    let full = path.canonicalize().map_err(|e| format!("{}: {e}", path.display()))?;
    if !seen.insert(full.clone()) {
        return Ok(());
    }
    let src = std::fs::read_to_string(&full).map_err(|e| format!("{}: {e}", full.display()))?;
    let u = ast::unit(&src).map_err(|e| format!("{}: {e}", full.display()))?;
    for inc in add(u, &full.display().to_string(), lib)? {
        match inc.split_once("circomlib/circuits/") {
            Some((_, name)) => builtin(name, lib, seen)?,
            None => file(&full.parent().unwrap().join(&inc), lib, seen)?,
        }
    }
    Ok(())
}
fn builtin(name: &str, lib: &mut Lib, seen: &mut HashSet<PathBuf>) -> Result<(), String> {
    if !seen.insert(PathBuf::from(format!("circomlib:{name}"))) {
        return Ok(());
    }
    let (_, src) = CIRCOMLIB.iter().find(|(n, _)| *n == name).ok_or_else(|| format!("no stand-in for circomlib's {name}"))?;
    for inc in add(ast::unit(src).map_err(|e| format!("{name}: {e}"))?, name, lib)? {
        let dir = name.rsplit_once('/').map(|x| x.0);
        let n = match dir {
            Some(d) if !inc.starts_with("../") => format!("{d}/{}", inc.trim_start_matches("./")),
            _ => inc.trim_start_matches("../").trim_start_matches("./").to_string(),
        };
        builtin(&n, lib, seen)?;
    }
    Ok(())
}

/// One free choice of the witness: a `<--` assignment.
#[derive(Clone, Debug)]
pub struct Hint {
    /// Number of the assigned signal in the whole witness.
    pub sig: u32,
    /// First signal of the instance whose template contains the assignment.
    pub base: u32,
    /// Template and signal name (without indices).
    pub class: String,
    pub value: U,
}
/// Every `<--` executed for these inputs, in order.
pub fn hints(lib: &Lib, t: &Tpl, inputs: &[(&str, Vec<U>)]) -> Result<(Vec<Hint>, Vec<U>), String> {
    let mut v: Vec<Hint> = vec![];
    let w = witness(lib, t, inputs, &mut |_: usize, t: &Tpl, base: u32, local: u32, x: U| {
        let name = if local < t.own {
            t.sigs.iter().rev().find(|s| s.off <= local).map(|s| s.name.clone()).unwrap_or_default()
        } else {
            t.name_of(local).split('[').next().unwrap().to_string()
        };
        v.push(Hint { sig: base + local, base, class: format!("{}.{}", t.name, name), value: x });
        x
    })?;
    Ok((v, w))
}
pub trait Hook {
    /// Called at every `<--`, in order; returns the value to store.
    fn hint(&mut self, index: usize, t: &Tpl, base: u32, local: u32, honest: U) -> U;
}
pub struct Honest;
impl Hook for Honest {
    fn hint(&mut self, _: usize, _: &Tpl, _: u32, _: u32, v: U) -> U {
        v
    }
}
impl<F: FnMut(usize, &Tpl, u32, u32, U) -> U> Hook for F {
    fn hint(&mut self, i: usize, t: &Tpl, b: u32, l: u32, v: U) -> U {
        self(i, t, b, l, v)
    }
}

/// A whole-circuit assignment: every signal of every instance.
pub fn witness<H: Hook>(lib: &Lib, t: &Tpl, inputs: &[(&str, Vec<U>)], hook: &mut H) -> Result<Vec<U>, String> {
    let mut w = vec![fp::ZERO; t.span as usize];
    for s in t.inputs() {
        let (_, v) = inputs.iter().find(|(n, _)| *n == s.name).ok_or_else(|| format!("input {} not given", s.name))?;
        if v.len() != s.len() {
            return Err(format!("input {} has {} entries, {} given", s.name, s.len(), v.len()));
        }
        w[s.off as usize..s.off as usize + v.len()].copy_from_slice(v);
    }
    let mut n = 0;
    run(lib, t, 0, &mut w, hook, &mut n)?;
    Ok(w)
}
fn run<H: Hook>(lib: &Lib, t: &Tpl, base: u32, w: &mut [U], hook: &mut H, count: &mut usize) -> Result<(), String> {
    let mut regs = vec![fp::ZERO; t.nodes.len()];
    for i in &t.code {
        match i {
            Instr::Eval(k) => {
                let r = |x: &u32| &regs[*x as usize];
                let v = match &t.nodes[*k as usize] {
                    Node::C(c) => *c,
                    Node::Sig(s) => w[(base + s) as usize],
                    Node::Un(o, x) => fp::un(*o, r(x)),
                    Node::Bin(o, x, y) => fp::bin(*o, r(x), r(y)).map_err(|e| format!("{e} (in {})", t.name))?,
                    Node::Sel(c, x, y) => *if *r(c) != fp::ZERO { r(x) } else { r(y) },
                    Node::Call(f, a) => call_concrete(lib, f, a, &regs)?,
                };
                regs[*k as usize] = v;
            }
            Instr::Assign { sig, node, hint } => {
                let mut v = regs[*node as usize];
                if *hint {
                    v = hook.hint(*count, t, base, *sig, v);
                    *count += 1;
                }
                w[(base + sig) as usize] = v;
            }
            Instr::Assert(n) => {
                if regs[*n as usize] == fp::ZERO {
                    return Err(format!("assert failed (in {})", t.name));
                }
            }
            Instr::Run(k) => {
                let c = &t.children[*k as usize];
                run(lib, &c.tpl, base + c.base, w, hook, count)?;
            }
        }
    }
    Ok(())
}
fn lc(l: &Lc, base: u32, w: &[U]) -> U {
    let mut s = l.0;
    for (i, c) in &l.1 {
        s = fp::add(&s, &fp::mul(&w[(base + i) as usize], c));
    }
    s
}
/// The first constraint the assignment breaks, or None if it satisfies them all.
pub fn broken(t: &Tpl, w: &[U]) -> Option<String> {
    broken_at(t, 0, w, &t.name)
}
fn broken_at(t: &Tpl, base: u32, w: &[U], path: &str) -> Option<String> {
    for c in &t.cons {
        let (a, b) = (lc(&c.a, base, w), lc(&c.b, base, w));
        if fp::mul(&a, &b) != lc(&c.c, base, w) {
            return Some(format!("{path}: {}", c.text));
        }
    }
    for c in &t.children {
        if let Some(x) = broken_at(&c.tpl, base + c.base, w, &c.tpl.name) {
            return Some(format!("{path}/{x}"));
        }
    }
    None
}
pub fn get(t: &Tpl, w: &[U], name: &str) -> Vec<U> {
    let s = t.sig(name);
    w[s.off as usize..s.off as usize + s.len()].to_vec()
}
pub fn count_constraints(t: &Tpl) -> usize {
    t.cons.len() + t.children.iter().map(|c| count_constraints(&c.tpl)).sum::<usize>()
}
