//! Lexer and parser for the circom 2 subset the repository (and ordinary edits of it) uses.
use crate::fp::{parse, Op, Un};
use refm::U;

#[derive(Clone, Debug)]
pub enum Ex {
    Num(U),
    Var(String, Vec<Acc>),
    Call(String, Vec<Ex>),
    Anon(String, Vec<Ex>, Vec<Ex>),
    Arr(Vec<Ex>),
    Tuple(Vec<Ex>),
    Un(Un, Box<Ex>),
    Bin(Op, Box<Ex>, Box<Ex>),
    Tern(Box<Ex>, Box<Ex>, Box<Ex>),
    Any, // `_`
}
#[derive(Clone, Debug)]
pub enum Acc {
    Ix(Ex),
    Field(String),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    In, Out, Mid,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Asg {
    Var,        // =
    Hint,       // <--
    Con,        // <==
    Op(Op),     // += and friends
}
#[derive(Clone, Debug)]
pub enum St {
    Var(Vec<(String, Vec<Ex>, Option<Ex>)>),
    Sig(Kind, Vec<(String, Vec<Ex>, Option<(Asg, Ex)>)>),
    Comp(Vec<(String, Vec<Ex>, Option<Ex>)>),
    Assign(Ex, Asg, Ex),
    Same(Ex, Ex), // ===
    If(Ex, Box<St>, Option<Box<St>>),
    While(Ex, Box<St>),
    For(Box<St>, Ex, Box<St>, Box<St>),
    Block(Vec<St>),
    Return(Ex),
    Assert(Ex),
    Nop,
}
#[derive(Clone, Debug)]
pub struct Def {
    pub params: Vec<String>,
    pub body: Vec<St>,
}
#[derive(Debug, Default)]
pub struct Unit {
    pub includes: Vec<String>,
    pub templates: Vec<(String, Def)>,
    pub functions: Vec<(String, Def)>,
    pub main: Option<(Vec<String>, Ex)>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Num(String),
    Str(String),
    P(&'static str),
    End,
}
const PUNCT: [&str; 57] = [
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>", "**", "++",
    "--", "+=", "-=", "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "~", "!",
    "<", ">", "=", "?", ":", ";", ",", ".", "(", ")", "[", "]", "{", "}", "@", "#", "$", "'",
];
fn lex(src: &str) -> Result<Vec<T>, String> {
    let b = src.as_bytes();
    let (mut i, mut out) = (0, vec![]);
    'next: while i < b.len() {
        let c = b[i];
        if c.is_ascii_whitespace() {
            i += 1;
        } else if src[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
        } else if src[i..].starts_with("/*") {
            i = match src[i + 2..].find("*/") {
                Some(k) => i + 2 + k + 2,
                None => return Err("unterminated comment".into()),
            };
        } else if c.is_ascii_alphabetic() || c == b'_' || c == b'$' {
            let s = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push(T::Id(src[s..i].into()));
        } else if c.is_ascii_digit() {
            let s = i;
            let hex = src[i..].starts_with("0x") || src[i..].starts_with("0X");
            i += if hex { 2 } else { 0 };
            while i < b.len() && (if hex { b[i].is_ascii_hexdigit() } else { b[i].is_ascii_digit() }) {
                i += 1;
            }
            out.push(T::Num(src[s..i].into()));
        } else if c == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += 1;
            }
            out.push(T::Str(src[s..i].into()));
            i += 1;
        } else if !c.is_ascii() {
            return Err(format!("byte {c:#x}"));
        } else {
            for p in PUNCT {
                if src[i..].starts_with(p) {
                    out.push(T::P(p));
                    i += p.len();
                    continue 'next;
                }
            }
            return Err(format!("character {:?}", c as char));
        }
    }
    out.push(T::End);
    Ok(out)
}

struct Ps {
    t: Vec<T>,
    i: usize,
}
type R<X> = Result<X, String>;
impl Ps {
    fn peek(&self) -> &T {
        &self.t[self.i]
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.peek(), T::Id(s) if s == k)
    }
    fn eat(&mut self, p: &str) -> bool {
        let r = self.is(p) || self.kw(p);
        self.i += r as usize;
        r
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            let lo = self.i.saturating_sub(6);
            Err(format!("expected {p:?} at {:?} after {:?}", self.peek(), &self.t[lo..self.i]))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.peek().clone() {
            T::Id(s) => {
                self.i += 1;
                Ok(s)
            }
            t => Err(format!("expected a name, found {t:?}")),
        }
    }
    fn list(&mut self, close: &str) -> R<Vec<Ex>> {
        let mut v = vec![];
        while !self.eat(close) {
            v.push(self.ex()?);
            if !self.eat(",") {
                self.want(close)?;
                break;
            }
        }
        Ok(v)
    }
    fn level(&mut self, n: usize) -> R<Ex> {
        const L: [&[(&str, Op)]; 9] = [
            &[("||", Op::Or)],
            &[("&&", Op::And)],
            &[("==", Op::Eq), ("!=", Op::Ne), ("<=", Op::Le), (">=", Op::Ge), ("<", Op::Lt), (">", Op::Gt)],
            &[("|", Op::BOr)],
            &[("^", Op::BXor)],
            &[("&", Op::BAnd)],
            &[("<<", Op::Shl), (">>", Op::Shr)],
            &[("+", Op::Add), ("-", Op::Sub)],
            &[("*", Op::Mul), ("/", Op::Div), ("\\", Op::IDiv), ("%", Op::Mod)],
        ];
        if n == L.len() {
            let a = self.prefix()?;
            if self.eat("**") {
                // right operand: another power or a prefix expression
                let mut all = vec![a, self.prefix()?];
                while self.eat("**") {
                    all.push(self.prefix()?);
                }
                let mut it = all.into_iter();
                let mut r = it.next().unwrap();
                for e in it {
                    r = Ex::Bin(Op::Pow, Box::new(r), Box::new(e));
                }
                return Ok(r);
            }
            return Ok(a);
        }
        let mut a = self.level(n + 1)?;
        'more: loop {
            for (s, op) in L[n] {
                if self.is(s) {
                    self.i += 1;
                    let b = self.level(n + 1)?;
                    a = Ex::Bin(*op, Box::new(a), Box::new(b));
                    continue 'more;
                }
            }
            return Ok(a);
        }
    }
    fn ex(&mut self) -> R<Ex> {
        let _ = self.eat("parallel");
        let c = self.level(0)?;
        if self.eat("?") {
            let a = self.ex()?;
            self.want(":")?;
            let b = self.ex()?;
            return Ok(Ex::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn prefix(&mut self) -> R<Ex> {
        for (s, op) in [("-", Un::Neg), ("!", Un::Not), ("~", Un::Compl)] {
            if self.eat(s) {
                return Ok(Ex::Un(op, Box::new(self.prefix()?)));
            }
        }
        match self.peek().clone() {
            T::Num(s) => {
                self.i += 1;
                Ok(Ex::Num(parse(&s)))
            }
            T::P("(") => {
                self.i += 1;
                let mut v = self.list(")")?;
                Ok(if v.len() == 1 { v.pop().unwrap() } else { Ex::Tuple(v) })
            }
            T::P("[") => {
                self.i += 1;
                Ok(Ex::Arr(self.list("]")?))
            }
            T::Id(s) if s == "_" => {
                self.i += 1;
                Ok(Ex::Any)
            }
            T::Id(name) => {
                self.i += 1;
                if self.eat("(") {
                    let args = self.list(")")?;
                    if self.eat("(") {
                        let mut ins = vec![];
                        while !self.eat(")") {
                            // `name <== e` in an anonymous component's argument list
                            let e = self.ex()?;
                            ins.push(if self.eat("<==") { Ex::Bin(Op::Eq, Box::new(e), Box::new(self.ex()?)) } else { e });
                            if !self.eat(",") {
                                self.want(")")?;
                                break;
                            }
                        }
                        return Ok(Ex::Anon(name, args, ins));
                    }
                    return Ok(Ex::Call(name, args));
                }
                let mut acc = vec![];
                loop {
                    if self.eat("[") {
                        acc.push(Acc::Ix(self.ex()?));
                        self.want("]")?;
                    } else if self.eat(".") {
                        acc.push(Acc::Field(self.id()?));
                    } else {
                        return Ok(Ex::Var(name, acc));
                    }
                }
            }
            t => Err(format!("unexpected {t:?} after {:?}", &self.t[self.i.saturating_sub(6)..self.i])),
        }
    }
    fn names<X>(&mut self, mut init: impl FnMut(&mut Ps) -> R<Option<X>>) -> R<Vec<(String, Vec<Ex>, Option<X>)>> {
        let mut v = vec![];
        let tuple = self.eat("(");
        loop {
            let n = self.id()?;
            let mut dims = vec![];
            while self.eat("[") {
                dims.push(self.ex()?);
                self.want("]")?;
            }
            let x = if tuple { None } else { init(self)? };
            v.push((n, dims, x));
            if !self.eat(",") {
                if tuple {
                    self.want(")")?;
                }
                return Ok(v);
            }
        }
    }
    fn asg(&mut self) -> Option<Asg> {
        const A: [(&str, Asg); 13] = [
            ("=", Asg::Var), ("<--", Asg::Hint), ("<==", Asg::Con), ("+=", Asg::Op(Op::Add)), ("-=", Asg::Op(Op::Sub)),
            ("*=", Asg::Op(Op::Mul)), ("/=", Asg::Op(Op::Div)), ("\\=", Asg::Op(Op::IDiv)), ("%=", Asg::Op(Op::Mod)),
            ("<<=", Asg::Op(Op::Shl)), (">>=", Asg::Op(Op::Shr)), ("&=", Asg::Op(Op::BAnd)), ("**=", Asg::Op(Op::Pow)),
        ];
        for (s, a) in A {
            if self.eat(s) {
                return Some(a);
            }
        }
        if self.eat("|=") {
            return Some(Asg::Op(Op::BOr));
        }
        if self.eat("^=") {
            return Some(Asg::Op(Op::BXor));
        }
        None
    }
    /// A statement that may appear in a `for` header or before a `;`.
    fn simple(&mut self) -> R<St> {
        if self.eat("var") {
            let tuple = self.is("(");
            let mut v = self.names(|p| if p.eat("=") { Ok(Some(p.ex()?)) } else { Ok(None) })?;
            if tuple && self.eat("=") {
                let e = self.ex()?;
                let lhs = Ex::Tuple(v.iter().map(|(n, _, _)| Ex::Var(n.clone(), vec![])).collect());
                v.iter_mut().for_each(|x| x.2 = None);
                return Ok(St::Block(vec![St::Var(v), St::Assign(lhs, Asg::Var, e)])); // (scope handled by the caller)
            }
            return Ok(St::Var(v));
        }
        if self.eat("signal") {
            let kind = if self.eat("input") {
                Kind::In
            } else if self.eat("output") {
                Kind::Out
            } else {
                Kind::Mid
            };
            if self.eat("{") {
                while !self.eat("}") {
                    self.i += 1; // tags
                }
            }
            return Ok(St::Sig(
                kind,
                self.names(|p| {
                    Ok(if p.eat("<==") {
                        Some((Asg::Con, p.ex()?))
                    } else if p.eat("<--") {
                        Some((Asg::Hint, p.ex()?))
                    } else {
                        None
                    })
                })?,
            ));
        }
        if self.eat("component") {
            return Ok(St::Comp(self.names(|p| if p.eat("=") { Ok(Some(p.ex()?)) } else { Ok(None) })?));
        }
        for (s, op) in [("++", Op::Add), ("--", Op::Sub)] {
            if self.eat(s) {
                let l = self.prefix()?;
                return Ok(St::Assign(l, Asg::Op(op), Ex::Num(crate::fp::ONE)));
            }
        }
        let l = self.ex()?;
        if let Some(a) = self.asg() {
            let r = self.ex()?;
            return Ok(St::Assign(l, a, r));
        }
        if self.eat("++") {
            return Ok(St::Assign(l, Asg::Op(Op::Add), Ex::Num(crate::fp::ONE)));
        }
        if self.eat("--") {
            return Ok(St::Assign(l, Asg::Op(Op::Sub), Ex::Num(crate::fp::ONE)));
        }
        if self.eat("===") {
            return Ok(St::Same(l, self.ex()?));
        }
        if self.eat("==>") {
            return Ok(St::Assign(self.ex()?, Asg::Con, l));
        }
        if self.eat("-->") {
            return Ok(St::Assign(self.ex()?, Asg::Hint, l));
        }
        if let Ex::Anon(..) = l {
            return Ok(St::Assign(Ex::Any, Asg::Con, l));
        }
        Err(format!("statement expected near {:?}", &self.t[self.i.saturating_sub(6)..=self.i]))
    }
    fn st(&mut self) -> R<St> {
        if self.eat("{") {
            return Ok(St::Block(self.block()?));
        }
        if self.eat(";") {
            return Ok(St::Nop);
        }
        if self.eat("if") {
            self.want("(")?;
            let c = self.ex()?;
            self.want(")")?;
            let a = self.st()?;
            let b = if self.eat("else") { Some(Box::new(self.st()?)) } else { None };
            return Ok(St::If(c, Box::new(a), b));
        }
        if self.eat("while") {
            self.want("(")?;
            let c = self.ex()?;
            self.want(")")?;
            return Ok(St::While(c, Box::new(self.st()?)));
        }
        if self.eat("for") {
            self.want("(")?;
            let i = self.simple()?;
            self.want(";")?;
            let c = self.ex()?;
            self.want(";")?;
            let s = self.simple()?;
            self.want(")")?;
            return Ok(St::For(Box::new(i), c, Box::new(s), Box::new(self.st()?)));
        }
        let s = if self.eat("return") {
            St::Return(self.ex()?)
        } else if self.kw("assert") {
            self.i += 1;
            self.want("(")?;
            let e = self.ex()?;
            self.want(")")?;
            St::Assert(e)
        } else if self.kw("log") {
            let mut d = 0;
            loop {
                self.i += 1;
                if self.is("(") {
                    d += 1;
                } else if self.is(")") {
                    d -= 1;
                }
                if d == 0 {
                    break;
                }
            }
            self.i += 1;
            St::Nop
        } else {
            self.simple()?
        };
        self.want(";")?;
        Ok(s)
    }
    fn block(&mut self) -> R<Vec<St>> {
        let mut v = vec![];
        while !self.eat("}") {
            v.push(self.st()?);
        }
        Ok(v)
    }
    fn def(&mut self) -> R<(String, Def)> {
        let name = self.id()?;
        self.want("(")?;
        let mut params = vec![];
        while !self.eat(")") {
            params.push(self.id()?);
            let _ = self.eat(",");
        }
        let _ = self.eat("parallel");
        self.want("{")?;
        Ok((name, Def { params, body: self.block()? }))
    }
}

pub fn unit(src: &str) -> R<Unit> {
    let mut p = Ps { t: lex(src)?, i: 0 };
    let mut u = Unit::default();
    loop {
        if *p.peek() == T::End {
            return Ok(u);
        }
        if p.eat("pragma") {
            while !p.eat(";") {
                p.i += 1;
            }
        } else if p.eat("include") {
            match p.peek().clone() {
                T::Str(s) => u.includes.push(s),
                t => return Err(format!("include {t:?}")),
            }
            p.i += 1;
            p.want(";")?;
        } else if p.eat("template") {
            while p.eat("parallel") || p.eat("custom") {}
            u.templates.push(p.def()?);
        } else if p.eat("function") {
            u.functions.push(p.def()?);
        } else if p.eat("component") {
            p.want("main")?;
            let mut public = vec![];
            if p.eat("{") {
                p.want("public")?;
                p.want("[")?;
                while !p.eat("]") {
                    public.push(p.id()?);
                    let _ = p.eat(",");
                }
                p.want("}")?;
            }
            p.want("=")?;
            let e = p.ex()?;
            p.want(";")?;
            u.main = Some((public, e));
        } else {
            return Err(format!("unexpected {:?} at top level", p.peek()));
        }
    }
}
