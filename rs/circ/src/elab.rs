//! Elaboration: templates with constant parameters become straight-line witness programs and
//! rank-one constraints over local signal numbers; instances are placed at run time.
use crate::ast::*;
use crate::fp::{self, bin, un, Op, Un, ONE, ZERO};
use refm::U;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// A signal: of the template itself (`c == OWN`) or of its `c`-th child's interface.
type Ref = (u32, u32);
const OWN: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
enum V {
    C(U),
    N(u32),
    A(Arc<Vec<V>>),
}
#[derive(Clone, Debug)]
enum NodeR {
    C(U),
    Sig(Ref),
    Un(Un, u32),
    Bin(Op, u32, u32),
    Sel(u32, u32, u32),
    Call(String, Vec<V>),
}
#[derive(Clone, Debug)]
pub enum Node {
    C(U),
    Sig(u32),
    Un(Un, u32),
    Bin(Op, u32, u32),
    Sel(u32, u32, u32),
    Call(String, Vec<CallArg>),
}
#[derive(Clone, Debug)]
pub enum CallArg {
    C(U),
    N(u32),
    A(Vec<CallArg>),
}
#[derive(Clone, Debug)]
enum OpR {
    Eval(u32),
    Assign { sig: Ref, node: u32, hint: bool },
    Assert(u32),
    Run(u32),
}
#[derive(Clone, Debug)]
pub enum Instr {
    Eval(u32),
    Assign { sig: u32, node: u32, hint: bool },
    Assert(u32),
    Run(u32),
}
pub type Lc = (U, Vec<(u32, U)>);
#[derive(Clone, Debug)]
pub struct Con {
    pub a: Lc,
    pub b: Lc,
    pub c: Lc,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub off: u32,
    pub dims: Vec<usize>,
    pub kind: Kind,
}
impl Sig {
    pub fn len(&self) -> usize {
        self.dims.iter().product()
    }
}
#[derive(Debug)]
pub struct Child {
    pub tpl: Arc<Tpl>,
    pub base: u32,
    pub name: String,
}
#[derive(Debug)]
pub struct Tpl {
    pub name: String,
    pub args: Vec<U>,
    pub sigs: Vec<Sig>,
    pub own: u32,
    pub span: u32,
    pub nodes: Vec<Node>,
    pub code: Vec<Instr>,
    pub cons: Vec<Con>,
    pub children: Vec<Child>,
}
impl Tpl {
    pub fn sig(&self, name: &str) -> &Sig {
        self.sigs.iter().find(|s| s.name == name).unwrap_or_else(|| panic!("{} has no signal {name}", self.name))
    }
    pub fn inputs(&self) -> impl Iterator<Item = &Sig> {
        self.sigs.iter().filter(|s| s.kind == Kind::In)
    }
    pub fn outputs(&self) -> impl Iterator<Item = &Sig> {
        self.sigs.iter().filter(|s| s.kind == Kind::Out)
    }
    pub fn name_of(&self, local: u32) -> String {
        if local < self.own {
            for s in &self.sigs {
                if local >= s.off && local < s.off + s.len() as u32 {
                    return if s.dims.is_empty() { s.name.clone() } else { format!("{}[{}]", s.name, local - s.off) };
                }
            }
        }
        for c in &self.children {
            if local >= c.base && local < c.base + c.tpl.span {
                return format!("{}.{}", c.name, c.tpl.name_of(local - c.base));
            }
        }
        "?".into()
    }
}

#[derive(Default)]
pub struct Lib {
    pub templates: HashMap<String, Def>,
    pub functions: HashMap<String, Def>,
    pub main: Option<(Vec<String>, Ex)>,
    cache: std::sync::Mutex<HashMap<(String, Vec<V2>), Arc<Tpl>>>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
enum V2 {
    C(U),
    A(Vec<V2>),
}
fn v2(v: &V) -> Result<V2, String> {
    Ok(match v {
        V::C(c) => V2::C(*c),
        V::A(a) => V2::A(a.iter().map(v2).collect::<Result<_, _>>()?),
        V::N(_) => return Err("template parameter depends on a signal".into()),
    })
}
type R<X> = Result<X, String>;

#[derive(Clone)]
enum Slot {
    Var(V),
    Sig(usize),
    Comp(usize),
}
struct CompVar {
    dims: Vec<usize>,
    inst: Vec<Option<usize>>,
}
struct ChildB {
    tpl: Arc<Tpl>,
    left: usize,
    set: Vec<bool>,
    name: String,
}
struct El<'a> {
    lib: &'a Lib,
    depth: usize,
    in_tpl: bool,
    env: Vec<HashMap<String, Slot>>,
    nodes: Vec<NodeR>,
    ops: Vec<OpR>,
    emitted: usize,
    sigs: Vec<Sig>,
    assigned: Vec<bool>,
    comps: Vec<CompVar>,
    children: Vec<ChildB>,
    cons: Vec<(Lr, Lr, Lr, String)>,
    steps: u64,
}
type Lr = (U, BTreeMap<Ref, U>);
enum Form {
    Lin(Lr),
    Quad(Lr, Lr, Lr), // a*b + c
    Non,
}
fn lin_add(mut a: Lr, b: Lr) -> Lr {
    if a.1.len() < b.1.len() {
        return lin_add(b, a);
    }
    a.0 = fp::add(&a.0, &b.0);
    for (r, c) in b.1 {
        let e = a.1.entry(r).or_insert(ZERO);
        *e = fp::add(e, &c);
        if *e == ZERO {
            a.1.remove(&r);
        }
    }
    a
}
fn lin_scale(mut a: Lr, k: &U) -> Lr {
    if *k == ZERO {
        return (ZERO, BTreeMap::new());
    }
    a.0 = fp::mul(&a.0, k);
    a.1.values_mut().for_each(|c| *c = fp::mul(c, k));
    a
}
fn usize_of(u: &U) -> R<usize> {
    if u[1] | u[2] | u[3] == 0 && u[0] < 1 << 32 {
        Ok(u[0] as usize)
    } else {
        Err("index or size out of range".into())
    }
}

impl<'a> El<'a> {
    fn new(lib: &'a Lib, in_tpl: bool, depth: usize) -> El<'a> {
        El {
            lib, depth, in_tpl, env: vec![HashMap::new()], nodes: vec![], ops: vec![], emitted: 0, sigs: vec![],
            assigned: vec![], comps: vec![], children: vec![], cons: vec![], steps: 0,
        }
    }
    fn node(&mut self, n: NodeR) -> u32 {
        self.nodes.push(n);
        self.nodes.len() as u32 - 1
    }
    fn as_node(&mut self, v: &V) -> R<u32> {
        match v {
            V::C(c) => Ok(self.node(NodeR::C(*c))),
            V::N(n) => Ok(*n),
            V::A(_) => Err("array used as a single value".into()),
        }
    }
    fn konst(&mut self, e: &Ex) -> R<U> {
        match self.ex(e)? {
            V::C(c) => Ok(c),
            V::A(_) => Err("array used as a number".into()),
            V::N(_) => Err("index, size or loop bound depends on a signal".into()),
        }
    }
    fn size(&mut self, e: &Ex) -> R<usize> {
        let k = self.konst(e)?;
        usize_of(&k)
    }
    fn find(&self, n: &str) -> R<Slot> {
        for s in self.env.iter().rev() {
            if let Some(v) = s.get(n) {
                return Ok(v.clone());
            }
        }
        Err(format!("unknown name {n}"))
    }
    fn bin(&mut self, op: Op, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            return Ok(V::C(bin(op, x, y)?));
        }
        // additions of zero and products by one or zero are folded, as the compiler does
        match (op, a, b) {
            (Op::Add, V::C(z), x) | (Op::Add, x, V::C(z)) | (Op::Sub, x, V::C(z)) if *z == ZERO => return Ok(x.clone()),
            (Op::Mul, V::C(z), x) | (Op::Mul, x, V::C(z)) if *z == ONE => return Ok(x.clone()),
            (Op::Mul, V::C(z), _) | (Op::Mul, _, V::C(z)) if *z == ZERO => return Ok(V::C(ZERO)),
            _ => {}
        }
        let (x, y) = (self.as_node(a)?, self.as_node(b)?);
        Ok(V::N(self.node(NodeR::Bin(op, x, y))))
    }
    fn sel(&mut self, c: &V, a: &V, b: &V) -> R<V> {
        if a == b {
            return Ok(a.clone());
        }
        match (a, b) {
            (V::A(x), V::A(y)) if x.len() == y.len() => {
                let r: R<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| self.sel(c, p, q)).collect();
                Ok(V::A(Arc::new(r?)))
            }
            _ => {
                let (c, x, y) = (self.as_node(c)?, self.as_node(a)?, self.as_node(b)?);
                Ok(V::N(self.node(NodeR::Sel(c, x, y))))
            }
        }
    }
    fn sig_value(&mut self, child: u32, off: u32, dims: &[usize]) -> V {
        if dims.is_empty() {
            return V::N(self.node(NodeR::Sig((child, off))));
        }
        let step: usize = dims[1..].iter().product();
        V::A(Arc::new((0..dims[0]).map(|i| self.sig_value(child, off + (i * step) as u32, &dims[1..])).collect()))
    }
    /// Resolves a path to a signal (child or own): (child, offset, remaining dims, kind).
    fn path(&mut self, name: &str, acc: &[Acc]) -> R<Option<(u32, u32, Vec<usize>, Kind)>> {
        let (child, sig, rest): (u32, Sig, &[Acc]) = match self.find(name)? {
            Slot::Var(_) => return Ok(None),
            Slot::Sig(k) => (OWN, self.sigs[k].clone(), acc),
            Slot::Comp(k) => {
                let nd = self.comps[k].dims.len();
                let ix = self.comp_index(k, &acc[..nd.min(acc.len())])?;
                let inst = self.comps[k].inst[ix].ok_or_else(|| format!("component {name} used before it is created"))?;
                match acc.get(nd) {
                    Some(Acc::Field(f)) => {
                        let t = self.children[inst].tpl.clone();
                        let s = t.sigs.iter().find(|s| s.name == *f && s.kind != Kind::Mid);
                        (inst as u32, s.ok_or_else(|| format!("{} has no port {f}", t.name))?.clone(), &acc[nd + 1..])
                    }
                    _ => return Err(format!("component {name} used as a value")),
                }
            }
        };
        let (mut off, mut dims) = (sig.off, &sig.dims[..]);
        for a in rest {
            match a {
                Acc::Ix(e) => {
                    let i = self.size(e)?;
                    if dims.is_empty() || i >= dims[0] {
                        return Err(format!("index {i} outside {name}"));
                    }
                    dims = &dims[1..];
                    off += (i * dims.iter().product::<usize>()) as u32;
                }
                Acc::Field(f) => return Err(format!("{name} has no field {f}")),
            }
        }
        Ok(Some((child, off, dims.to_vec(), sig.kind)))
    }
    fn comp_index(&mut self, k: usize, acc: &[Acc]) -> R<usize> {
        let dims = self.comps[k].dims.clone();
        if acc.len() < dims.len() {
            return Err("component array used as a component".into());
        }
        let mut ix = 0;
        for (a, d) in acc.iter().zip(&dims) {
            match a {
                Acc::Ix(e) => {
                    let i = self.size(e)?;
                    if i >= *d {
                        return Err("component index out of range".into());
                    }
                    ix = ix * d + i;
                }
                _ => return Err("component array used as a component".into()),
            }
        }
        Ok(ix)
    }
    fn ex(&mut self, e: &Ex) -> R<V> {
        match e {
            Ex::Num(c) => Ok(V::C(*c)),
            Ex::Any => Err("`_` used as a value".into()),
            Ex::Arr(v) => {
                let r: R<Vec<V>> = v.iter().map(|x| self.ex(x)).collect();
                Ok(V::A(Arc::new(r?)))
            }
            Ex::Tuple(_) => Err("tuple used as a value".into()),
            Ex::Un(op, x) => match self.ex(x)? {
                V::C(c) => Ok(V::C(un(*op, &c))),
                v => {
                    let n = self.as_node(&v)?;
                    Ok(V::N(self.node(NodeR::Un(*op, n))))
                }
            },
            Ex::Bin(op, a, b) => {
                let x = self.ex(a)?;
                match (op, &x) {
                    (Op::And, V::C(c)) if *c == ZERO => return Ok(V::C(ZERO)),
                    (Op::Or, V::C(c)) if *c != ZERO => return Ok(V::C(ONE)),
                    _ => {}
                }
                let y = self.ex(b)?;
                self.bin(*op, &x, &y)
            }
            Ex::Tern(c, a, b) => match self.ex(c)? {
                V::C(k) => self.ex(if k != ZERO { a } else { b }),
                k => {
                    let (x, y) = (self.ex(a)?, self.ex(b)?);
                    self.sel(&k, &x, &y)
                }
            },
            Ex::Var(name, acc) => {
                if let Some((c, off, dims, _)) = self.path(name, acc)? {
                    return Ok(self.sig_value(c, off, &dims));
                }
                let Slot::Var(mut v) = self.find(name)? else { unreachable!() };
                for a in acc {
                    let Acc::Ix(e) = a else { return Err(format!("{name} has no fields")) };
                    let V::A(items) = v else { return Err(format!("{name} is not an array")) };
                    v = match self.ex(e)? {
                        V::C(i) => {
                            let i = usize_of(&i)?;
                            items.get(i).ok_or_else(|| format!("index {i} outside {name}"))?.clone()
                        }
                        ix => {
                            // array read at an index only the witness knows
                            let mut r = V::C(ZERO);
                            for (i, x) in items.iter().enumerate() {
                                let hit = self.bin(Op::Eq, &ix, &V::C([i as u64, 0, 0, 0]))?;
                                r = self.sel(&hit, x, &r)?;
                            }
                            r
                        }
                    };
                }
                Ok(v)
            }
            Ex::Call(name, args) => {
                let vals: Vec<V> = args.iter().map(|a| self.ex(a)).collect::<R<_>>()?;
                if !self.lib.functions.contains_key(name) {
                    return Err(format!("unknown function {name}"));
                }
                if vals.iter().all(|v| v2(v).is_ok()) {
                    return call(self.lib, name, &vals, self.depth + 1);
                }
                Ok(V::N(self.node(NodeR::Call(name.clone(), vals))))
            }
            Ex::Anon(..) => {
                let mut v = self.anon(e)?;
                match v.len() {
                    1 => Ok(v.pop().unwrap()),
                    n => Err(format!("anonymous component with {n} outputs used as a value")),
                }
            }
        }
    }
    fn anon(&mut self, e: &Ex) -> R<Vec<V>> {
        let Ex::Anon(name, params, ins) = e else { unreachable!() };
        let k = self.instantiate(name, params, format!("anon{}", self.children.len()))?;
        let t = self.children[k].tpl.clone();
        let ports: Vec<Sig> = t.inputs().cloned().collect();
        if ports.len() != ins.len() {
            return Err(format!("{name} takes {} inputs", ports.len()));
        }
        for (i, e) in ins.iter().enumerate() {
            let (port, e) = match e {
                Ex::Bin(Op::Eq, l, r) => match &**l {
                    Ex::Var(n, acc) if acc.is_empty() && ports.iter().any(|p| p.name == *n) => {
                        (ports.iter().find(|p| p.name == *n).unwrap(), &**r)
                    }
                    _ => (&ports[i], e),
                },
                _ => (&ports[i], e),
            };
            let v = self.ex(e)?;
            self.set_signal(k as u32, port.off, &port.dims, &v, false, "anonymous component input")?;
        }
        let outs: Vec<Sig> = t.outputs().cloned().collect();
        Ok(outs.iter().map(|s| self.sig_value(k as u32, s.off, &s.dims)).collect())
    }
    fn instantiate(&mut self, name: &str, params: &[Ex], label: String) -> R<usize> {
        if !self.in_tpl {
            return Err("component created inside a function".into());
        }
        let args: Vec<V> = params.iter().map(|a| self.ex(a)).collect::<R<_>>()?;
        let tpl = self.lib.get(name, &args, self.depth + 1)?;
        let n: usize = tpl.inputs().map(|s| s.len()).sum();
        let set = vec![false; tpl.own as usize];
        self.children.push(ChildB { tpl, left: n, set, name: label });
        if n == 0 {
            self.ops.push(OpR::Run(self.children.len() as u32 - 1));
        }
        Ok(self.children.len() - 1)
    }
    fn set_signal(&mut self, child: u32, off: u32, dims: &[usize], v: &V, hint: bool, text: &str) -> R<()> {
        if !dims.is_empty() {
            let V::A(items) = v else { return Err(format!("a single value assigned to an array in `{text}`")) };
            if items.len() != dims[0] {
                return Err(format!("array sizes differ in `{text}`"));
            }
            let step: usize = dims[1..].iter().product();
            for (i, x) in items.iter().enumerate() {
                self.set_signal(child, off + (i * step) as u32, &dims[1..], x, hint, text)?;
            }
            return Ok(());
        }
        let n = self.as_node(v)?;
        while self.emitted < self.nodes.len() {
            self.ops.push(OpR::Eval(self.emitted as u32));
            self.emitted += 1;
        }
        self.ops.push(OpR::Assign { sig: (child, off), node: n, hint });
        if !hint {
            let f = self.form(n);
            let minus: Lr = (ZERO, [((child, off), fp::neg(&ONE))].into_iter().collect());
            self.constrain(f, minus, text)?;
        }
        if child == OWN {
            if std::mem::replace(&mut self.assigned[off as usize], true) {
                return Err(format!("signal assigned twice in `{text}`"));
            }
        } else {
            let c = &mut self.children[child as usize];
            if std::mem::replace(&mut c.set[off as usize], true) {
                return Err(format!("input assigned twice in `{text}`"));
            }
            c.left -= 1;
            if c.left == 0 {
                self.ops.push(OpR::Run(child));
            }
        }
        Ok(())
    }
    fn constrain(&mut self, f: Form, plus: Lr, text: &str) -> R<()> {
        let zero = || (ZERO, BTreeMap::new());
        match f {
            Form::Non => Err(format!("non-quadratic constraint `{text}`")),
            Form::Lin(l) => {
                let l = lin_add(l, plus);
                if l.1.is_empty() && l.0 != ZERO {
                    // circom reports a constraint that cannot hold as an error
                    return Err(format!("constraint that can never hold: `{text}`"));
                }
                if !l.1.is_empty() {
                    self.cons.push((zero(), zero(), l, text.into()));
                }
                Ok(())
            }
            Form::Quad(a, b, c) => {
                let c = lin_scale(lin_add(c, plus), &fp::neg(&ONE));
                self.cons.push((a, b, c, text.into()));
                Ok(())
            }
        }
    }
    fn form(&self, n: u32) -> Form {
        use Form::*;
        match &self.nodes[n as usize] {
            NodeR::C(c) => Lin((*c, BTreeMap::new())),
            NodeR::Sig(r) => Lin((ZERO, [(*r, ONE)].into_iter().collect())),
            NodeR::Un(Un::Neg, x) => scale(self.form(*x), &fp::neg(&ONE)),
            NodeR::Bin(op @ (Op::Add | Op::Sub), x, y) => {
                let b = self.form(*y);
                let b = if *op == Op::Sub { scale(b, &fp::neg(&ONE)) } else { b };
                match (self.form(*x), b) {
                    (Lin(p), Lin(q)) => Lin(lin_add(p, q)),
                    (Quad(u, v, w), Lin(q)) | (Lin(q), Quad(u, v, w)) => Quad(u, v, lin_add(w, q)),
                    _ => Non,
                }
            }
            NodeR::Bin(Op::Mul, x, y) => match (self.form(*x), self.form(*y)) {
                (f, Lin(k)) if k.1.is_empty() => scale(f, &k.0),
                (Lin(k), f) if k.1.is_empty() => scale(f, &k.0),
                (Lin(p), Lin(q)) => Quad(p, q, (ZERO, BTreeMap::new())),
                _ => Non,
            },
            NodeR::Bin(Op::Div, x, y) => match (self.form(*x), self.form(*y)) {
                (f, Lin(k)) if k.1.is_empty() && k.0 != ZERO => scale(f, &fp::inv(&k.0)),
                _ => Non,
            },
            NodeR::Bin(Op::Pow, x, y) => match (self.form(*x), self.form(*y)) {
                (Lin(p), Lin(k)) if k.1.is_empty() && k.0 == [2, 0, 0, 0] => Quad(p.clone(), p, (ZERO, BTreeMap::new())),
                (f, Lin(k)) if k.1.is_empty() && k.0 == ONE => f,
                _ => Non,
            },
            _ => Non,
        }
    }
    fn assign(&mut self, lhs: &Ex, op: Asg, rhs: &Ex) -> R<()> {
        if let Ex::Any = lhs {
            return self.any(rhs);
        }
        if let Ex::Tuple(ls) = lhs {
            let vals = match rhs {
                Ex::Anon(..) => self.anon(rhs)?,
                Ex::Tuple(rs) => rs.iter().map(|r| self.ex(r)).collect::<R<Vec<_>>>()?,
                _ => return Err("tuple assigned from a single value".into()),
            };
            if vals.len() != ls.len() {
                return Err("tuple sizes differ".into());
            }
            for (l, v) in ls.iter().zip(vals) {
                self.assign_value(l, op, v)?;
            }
            return Ok(());
        }
        if let (Ex::Var(name, acc), Ex::Call(t, params)) = (lhs, rhs) {
            if let Slot::Comp(k) = self.find(name)? {
                if op == Asg::Var && self.comps[k].dims.len() == acc.len() {
                    let ix = self.comp_index(k, acc)?;
                    if self.comps[k].inst[ix].is_some() {
                        return Err(format!("component {name} created twice"));
                    }
                    let c = self.instantiate(t, params, if acc.is_empty() { name.clone() } else { format!("{name}[{ix}]") })?;
                    self.comps[k].inst[ix] = Some(c);
                    return Ok(());
                }
            }
        }
        let v = self.ex(rhs)?;
        self.assign_value(lhs, op, v)
    }
    fn any(&mut self, rhs: &Ex) -> R<()> {
        match rhs {
            Ex::Anon(..) => self.anon(rhs).map(|_| ()),
            e => self.ex(e).map(|_| ()),
        }
    }
    fn assign_value(&mut self, lhs: &Ex, op: Asg, v: V) -> R<()> {
        let Ex::Var(name, acc) = lhs else {
            return if let Ex::Any = lhs { Ok(()) } else { Err("assignment to an expression".into()) };
        };
        let text = format!("{name}{}", acc.iter().map(|a| match a {
            Acc::Ix(_) => "[..]".into(),
            Acc::Field(f) => format!(".{f}"),
        }).collect::<String>());
        if let Some((child, off, dims, kind)) = self.path(name, acc)? {
            let hint = match op {
                Asg::Hint => true,
                Asg::Con => false,
                _ => return Err(format!("signal {name} assigned with =")),
            };
            if child == OWN && kind == Kind::In || child != OWN && kind != Kind::In {
                return Err(format!("{text} cannot be assigned here"));
            }
            return self.set_signal(child, off, &dims, &v, hint, &text);
        }
        let (Asg::Var | Asg::Op(_)) = op else { return Err(format!("variable {name} assigned as a signal")) };
        let mut ix = vec![];
        for a in acc {
            match a {
                Acc::Ix(e) => ix.push(self.size(e)?),
                _ => return Err(format!("{name} has no fields")),
            }
        }
        let v = match op {
            Asg::Op(o) => {
                let old = self.ex(lhs)?;
                self.bin(o, &old, &v)?
            }
            _ => v,
        };
        for s in self.env.iter_mut().rev() {
            if let Some(Slot::Var(slot)) = s.get_mut(name) {
                return put(slot, &ix, v).ok_or_else(|| format!("index outside {name}"));
            }
        }
        unreachable!()
    }
    fn declare(&mut self, name: &str, s: Slot) {
        self.env.last_mut().unwrap().insert(name.into(), s);
    }
    fn dims(&mut self, d: &[Ex]) -> R<Vec<usize>> {
        d.iter().map(|e| self.size(e)).collect()
    }
    /// Runs a statement; Some(value) after a `return`.
    fn st(&mut self, s: &St) -> R<Option<V>> {
        self.steps += 1;
        if self.steps > 40_000_000 {
            return Err("loop does not end".into());
        }
        match s {
            St::Nop => {}
            St::Var(v) => {
                for (n, d, init) in v {
                    let dims = self.dims(d)?;
                    let val = match init {
                        Some(e) => self.ex(e)?,
                        None => zeros(&dims),
                    };
                    self.declare(n, Slot::Var(val));
                }
            }
            St::Sig(kind, v) => {
                if !self.in_tpl {
                    return Err("signal declared inside a function".into());
                }
                for (n, d, init) in v {
                    let dims = self.dims(d)?;
                    let off = self.assigned.len() as u32;
                    let sig = Sig { name: n.clone(), off, dims, kind: *kind };
                    self.assigned.resize(off as usize + sig.len(), false);
                    self.sigs.push(sig);
                    self.declare(n, Slot::Sig(self.sigs.len() - 1));
                    if let Some((op, e)) = init {
                        self.assign(&Ex::Var(n.clone(), vec![]), *op, e)?;
                    }
                }
            }
            St::Comp(v) => {
                for (n, d, init) in v {
                    let dims = self.dims(d)?;
                    let len = dims.iter().product();
                    self.comps.push(CompVar { dims, inst: vec![None; len] });
                    self.declare(n, Slot::Comp(self.comps.len() - 1));
                    if let Some(e) = init {
                        self.assign(&Ex::Var(n.clone(), vec![]), Asg::Var, e)?;
                    }
                }
            }
            St::Assign(l, op, r) => self.assign(l, *op, r)?,
            St::Same(l, r) => {
                let (a, b) = (self.ex(l)?, self.ex(r)?);
                self.same(&a, &b)?;
            }
            St::If(c, a, b) => match self.ex(c)? {
                V::C(k) => {
                    if k != ZERO {
                        return self.st(a);
                    } else if let Some(b) = b {
                        return self.st(b);
                    }
                }
                k => {
                    // a condition only the witness knows: variables are merged, nothing else may happen
                    let (before, marks) = (self.env.clone(), (self.sigs.len(), self.children.len(), self.cons.len()));
                    let ra = self.st(a)?;
                    let ea = std::mem::replace(&mut self.env, before);
                    let rb = match b {
                        Some(b) => self.st(b)?,
                        None => None,
                    };
                    if marks != (self.sigs.len(), self.children.len(), self.cons.len()) || ra.is_some() || rb.is_some() {
                        return Err("signals or components under a condition that depends on the witness".into());
                    }
                    for d in 0..ea.len() {
                        let names: Vec<String> = ea[d].keys().cloned().collect();
                        for n in names {
                            if let (Some(Slot::Var(x)), Some(Slot::Var(y))) = (ea[d].get(&n), self.env[d].get(&n).cloned()) {
                                if *x != y {
                                    let m = self.sel(&k, x, &y)?;
                                    self.env[d].insert(n, Slot::Var(m));
                                }
                            }
                        }
                    }
                }
            },
            St::While(c, b) => {
                while self.konst(c)? != ZERO {
                    if let Some(v) = self.st(b)? {
                        return Ok(Some(v));
                    }
                }
            }
            St::For(i, c, s, b) => {
                self.env.push(HashMap::new());
                self.st(i)?;
                while self.konst(c)? != ZERO {
                    if let Some(v) = self.st(b)? {
                        return Ok(Some(v));
                    }
                    self.st(s)?;
                }
                self.env.pop();
            }
            St::Block(v) => {
                let flat = matches!(v.first(), Some(St::Var(_))) && v.len() == 2 && matches!(v[1], St::Assign(Ex::Tuple(_), ..));
                if !flat {
                    self.env.push(HashMap::new());
                }
                for s in v {
                    if let Some(r) = self.st(s)? {
                        return Ok(Some(r));
                    }
                }
                if !flat {
                    self.env.pop();
                }
            }
            St::Return(e) => return Ok(Some(self.ex(e)?)),
            St::Assert(e) => match self.ex(e)? {
                V::C(k) if k == ZERO => return Err("assert failed".into()),
                V::N(n) => {
                    while self.emitted < self.nodes.len() {
                        self.ops.push(OpR::Eval(self.emitted as u32));
                        self.emitted += 1;
                    }
                    self.ops.push(OpR::Assert(n));
                }
                _ => {}
            },
        }
        Ok(None)
    }
    fn same(&mut self, a: &V, b: &V) -> R<()> {
        if let (V::A(x), V::A(y)) = (a, b) {
            if x.len() != y.len() {
                return Err("array sizes differ in ===".into());
            }
            for (p, q) in x.iter().zip(y.iter()) {
                self.same(p, q)?;
            }
            return Ok(());
        }
        let d = self.bin(Op::Sub, a, b)?;
        let n = self.as_node(&d)?;
        let f = self.form(n);
        let k = self.cons.len();
        self.constrain(f, (ZERO, BTreeMap::new()), &format!("=== #{k}"))
    }
}
fn scale(f: Form, k: &U) -> Form {
    match f {
        Form::Lin(l) => Form::Lin(lin_scale(l, k)),
        Form::Quad(..) if *k == ZERO => Form::Lin((ZERO, BTreeMap::new())),
        Form::Quad(a, b, c) => Form::Quad(lin_scale(a, k), b, lin_scale(c, k)),
        Form::Non => Form::Non,
    }
}
fn zeros(d: &[usize]) -> V {
    if d.is_empty() {
        V::C(ZERO)
    } else {
        V::A(Arc::new(vec![zeros(&d[1..]); d[0]]))
    }
}
fn put(slot: &mut V, ix: &[usize], v: V) -> Option<()> {
    match ix.split_first() {
        None => {
            *slot = v;
            Some(())
        }
        Some((i, rest)) => match slot {
            V::A(a) => put(Arc::make_mut(a).get_mut(*i)?, rest, v),
            _ => None,
        },
    }
}
fn call(lib: &Lib, name: &str, args: &[V], depth: usize) -> R<V> {
    if depth > 60 {
        return Err("recursion too deep".into());
    }
    let d = lib.functions.get(name).ok_or_else(|| format!("unknown function {name}"))?;
    let mut e = El::new(lib, false, depth);
    if d.params.len() != args.len() {
        return Err(format!("{name} takes {} arguments", d.params.len()));
    }
    for (p, v) in d.params.iter().zip(args) {
        e.declare(p, Slot::Var(v.clone()));
    }
    for s in &d.body {
        if let Some(v) = e.st(s).map_err(|m| format!("{m} (in {name})"))? {
            return Ok(v);
        }
    }
    Err(format!("function {name} returns nothing"))
}
/// Runs a function on values known only at witness time.
pub fn call_concrete(lib: &Lib, name: &str, args: &[CallArg], regs: &[U]) -> R<U> {
    fn val(a: &CallArg, regs: &[U]) -> V {
        match a {
            CallArg::C(c) => V::C(*c),
            CallArg::N(n) => V::C(regs[*n as usize]),
            CallArg::A(v) => V::A(Arc::new(v.iter().map(|x| val(x, regs)).collect())),
        }
    }
    let vals: Vec<V> = args.iter().map(|a| val(a, regs)).collect();
    match call(lib, name, &vals, 1)? {
        V::C(c) => Ok(c),
        _ => Err(format!("{name} does not return a single value")),
    }
}
impl Lib {
    pub fn compile(&self, name: &str, args: &[u64]) -> R<Arc<Tpl>> {
        let a: Vec<V> = args.iter().map(|x| V::C([*x, 0, 0, 0])).collect();
        self.get(name, &a, 0)
    }
    pub fn compile_main(&self) -> R<(Vec<String>, Arc<Tpl>)> {
        let (public, e) = self.main.as_ref().ok_or("no main component")?;
        let Ex::Call(n, args) = e else { return Err("main is not a template".into()) };
        let mut el = El::new(self, false, 0);
        let a: Vec<V> = args.iter().map(|x| el.ex(x)).collect::<R<_>>()?;
        Ok((public.clone(), self.get(n, &a, 0)?))
    }
    fn get(&self, name: &str, args: &[V], depth: usize) -> R<Arc<Tpl>> {
        if depth > 60 {
            return Err("templates nested too deep".into());
        }
        let key = (name.to_string(), args.iter().map(v2).collect::<R<Vec<_>>>()?);
        if let Some(t) = self.cache.lock().unwrap().get(&key) {
            return Ok(t.clone());
        }
        let d = self.templates.get(name).ok_or_else(|| format!("unknown template {name}"))?;
        if d.params.len() != args.len() {
            return Err(format!("{name} takes {} parameters", d.params.len()));
        }
        let mut e = El::new(self, true, depth);
        for (p, v) in d.params.iter().zip(args) {
            e.declare(p, Slot::Var(v.clone()));
        }
        for s in &d.body {
            e.st(s).map_err(|m| if m.contains(" (in ") { m } else { format!("{m} (in {name})") })?;
        }
        for c in &e.children {
            if c.left > 0 {
                let missing = c.tpl.inputs().find(|s| (0..s.len()).any(|i| !c.set[s.off as usize + i])).unwrap();
                return Err(format!("input {} of {} is never assigned (in {name})", missing.name, c.name));
            }
        }
        for s in &e.sigs {
            if s.kind == Kind::Out && (0..s.len()).any(|i| !e.assigned[s.off as usize + i]) {
                return Err(format!("output {} is never assigned (in {name})", s.name));
            }
        }
        let own = e.assigned.len() as u32;
        let mut children = vec![];
        let mut base = own;
        for c in &e.children {
            children.push(Child { tpl: c.tpl.clone(), base, name: c.name.clone() });
            base += c.tpl.span;
        }
        let loc = |r: Ref| if r.0 == OWN { r.1 } else { children[r.0 as usize].base + r.1 };
        // nodes that feed an assignment, and only those, are evaluated
        let mut need = vec![false; e.nodes.len()];
        for o in &e.ops {
            match o {
                OpR::Assign { node, .. } | OpR::Assert(node) => need[*node as usize] = true,
                _ => {}
            }
        }
        fn mark(v: &V, need: &mut [bool]) {
            match v {
                V::N(n) => need[*n as usize] = true,
                V::A(a) => a.iter().for_each(|x| mark(x, need)),
                _ => {}
            }
        }
        for i in (0..e.nodes.len()).rev() {
            if need[i] {
                match &e.nodes[i] {
                    NodeR::Un(_, x) => need[*x as usize] = true,
                    NodeR::Bin(_, x, y) => {
                        need[*x as usize] = true;
                        need[*y as usize] = true;
                    }
                    NodeR::Sel(x, y, z) => [x, y, z].iter().for_each(|k| need[**k as usize] = true),
                    NodeR::Call(_, a) => a.iter().for_each(|v| mark(v, &mut need)),
                    _ => {}
                }
            }
        }
        let mut renum = vec![u32::MAX; e.nodes.len()];
        let mut nodes: Vec<Node> = vec![];
        fn arg(v: &V, renum: &[u32]) -> CallArg {
            match v {
                V::C(c) => CallArg::C(*c),
                V::N(n) => CallArg::N(renum[*n as usize]),
                V::A(a) => CallArg::A(a.iter().map(|x| arg(x, renum)).collect()),
            }
        }
        for i in 0..e.nodes.len() {
            if need[i] {
                let r = |k: &u32| renum[*k as usize];
                let n = match &e.nodes[i] {
                    NodeR::C(c) => Node::C(*c),
                    NodeR::Sig(s) => Node::Sig(loc(*s)),
                    NodeR::Un(o, x) => Node::Un(*o, r(x)),
                    NodeR::Bin(o, x, y) => Node::Bin(*o, r(x), r(y)),
                    NodeR::Sel(x, y, z) => Node::Sel(r(x), r(y), r(z)),
                    NodeR::Call(f, a) => Node::Call(f.clone(), a.iter().map(|v| arg(v, &renum)).collect()),
                };
                renum[i] = nodes.len() as u32;
                nodes.push(n);
            }
        }
        let code = e.ops.iter().filter_map(|o| match o {
            OpR::Eval(i) if !need[*i as usize] => None,
            OpR::Eval(i) => Some(Instr::Eval(renum[*i as usize])),
            OpR::Assign { sig, node, hint } => Some(Instr::Assign { sig: loc(*sig), node: renum[*node as usize], hint: *hint }),
            OpR::Assert(n) => Some(Instr::Assert(renum[*n as usize])),
            OpR::Run(k) => Some(Instr::Run(*k)),
        }).collect();
        let lc = |l: &Lr| -> Lc { (l.0, l.1.iter().map(|(r, c)| (loc(*r), *c)).collect()) };
        let cons = e.cons.iter().map(|(a, b, c, t)| Con { a: lc(a), b: lc(b), c: lc(c), text: t.clone() }).collect();
        let t = Arc::new(Tpl {
            name: name.into(),
            args: args.iter().map(|v| if let V::C(c) = v { *c } else { ZERO }).collect(),
            sigs: e.sigs, own, span: base, nodes, code, cons, children,
        });
        self.cache.lock().unwrap().insert(key, t.clone());
        Ok(t)
    }
}
