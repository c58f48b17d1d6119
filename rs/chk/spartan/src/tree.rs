//! A serialised proof as a tree of scalars, points and lists, and the ways to change it.
use refm::ec::{Pt, SECQ};
use refm::*;
use vk::serde_json::Value;
use vk::B32;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Key(String),
    At(usize),
}
pub type Path = Vec<Step>;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Scalar,
    Point,
    List,
}
pub fn is_scalar(v: &Value) -> bool {
    v.as_array().map(|a| a.len() == 32 && a.iter().all(|x| x.as_u64().map(|x| x < 256).unwrap_or(false))).unwrap_or(false)
}
pub fn is_point(v: &Value) -> bool {
    v.as_str().map(|s| s.len() == 66 || s.len() == 2).unwrap_or(false)
}
pub fn nodes(v: &Value) -> Vec<(Path, Kind)> {
    fn go(v: &Value, p: &mut Path, out: &mut Vec<(Path, Kind)>) {
        if is_scalar(v) {
            out.push((p.clone(), Kind::Scalar));
        } else if is_point(v) {
            out.push((p.clone(), Kind::Point));
        } else if let Some(a) = v.as_array() {
            out.push((p.clone(), Kind::List));
            for (i, x) in a.iter().enumerate() {
                p.push(Step::At(i));
                go(x, p, out);
                p.pop();
            }
        } else if let Some(o) = v.as_object() {
            for (k, x) in o {
                p.push(Step::Key(k.clone()));
                go(x, p, out);
                p.pop();
            }
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
pub fn get<'a>(v: &'a Value, p: &[Step]) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &v[k.as_str()],
        Step::At(i) => &v[*i],
    })
}
pub fn get_mut<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &mut v[k.as_str()],
        Step::At(i) => &mut v[*i],
    })
}
pub fn show(p: &Path) -> String {
    p.iter()
        .map(|s| match s {
            Step::Key(k) => format!(".{}", k),
            Step::At(i) => format!("[{}]", i),
        })
        .collect()
}
pub fn scalar(v: &Value) -> U {
    let a = v.as_array().unwrap();
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[i] = a[i].as_u64().unwrap() as u8
    }
    le(&b)
}
pub fn of_scalar(u: &U) -> Value {
    Value::Array(to_le(u).iter().map(|b| Value::from(*b)).collect())
}
pub fn point(v: &Value) -> Option<Pt> {
    let s = v.as_str()?;
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    if b[0] == 0 {
        return Some(None);
    }
    let x = be(&b[1..33].try_into().ok()?);
    let r = SECQ.lift(&x, b[0] & 1 == 1);
    r.map(Some)
}
pub fn of_point(p: &Pt) -> Value {
    match p {
        None => Value::from("00".to_string()),
        Some((x, y)) => {
            let t = if y[0] & 1 == 1 { 3u8 } else { 2 };
            let mut s = format!("{:02X}", t);
            for b in to_be(x) {
                s += &format!("{:02X}", b);
            }
            Value::from(s)
        }
    }
}

/// One change.  `at` picks the node, `kind` what happens to it.
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Edit {
    pub at: u32,
    pub kind: u8,
    pub other: u32,
    pub v: B32,
}
pub fn edit() -> impl proptest::strategy::Strategy<Value = Edit> + Clone {
    use proptest::prelude::*;
    (any::<u32>(), any::<u8>(), any::<u32>(), crate::val()).prop_map(|(at, kind, other, v)| Edit { at, kind, other, v })
}
pub const KINDS: u8 = 8;
/// The number of different things that can be done to a node of this kind.
pub fn kinds(k: Kind) -> u8 {
    match k {
        Kind::Scalar => 7,
        Kind::Point => 7,
        Kind::List => 8,
    }
}
/// Changes the node at `p`; returns what was done.  `pool` provides donor elements.
pub fn change(v: &mut Value, p: &Path, kind: Kind, e: &Edit, pool: &Value) -> String {
    let all = nodes(pool);
    let donor = |k: Kind| -> Option<Value> {
        let c: Vec<&(Path, Kind)> = all.iter().filter(|n| n.1 == k && (k != Kind::List)).collect();
        if c.is_empty() { None } else { Some(get(pool, &c[e.other as usize % c.len()].0).clone()) }
    };
    let what = e.kind % kinds(kind);
    let n = get_mut(v, p);
    match kind {
        Kind::Scalar => {
            let s = scalar(n);
            let f = &FP;
            let new = match what {
                0 => f.add(&s, &u(1)),
                1 => f.neg(&s),
                2 => u(0),
                3 => f.red(&le(&e.v.0)),
                4 => donor(Kind::Scalar).map(|d| scalar(&d)).unwrap_or(u(7)),
                5 => f.add(&s, &s),
                _ => f.add(&s, &f.red(&le(&e.v.0))),
            };
            *n = of_scalar(&new);
        }
        Kind::Point => {
            let g = refm::ec::g_secq();
            match what {
                0 => {
                    if let Some(q) = point(n) {
                        *n = of_point(&SECQ.neg(&q))
                    }
                }
                1 => *n = of_point(&None),
                2 => {
                    if let Some(q) = point(n) {
                        *n = of_point(&SECQ.add(&q, &g))
                    }
                }
                3 => {
                    if let Some(d) = donor(Kind::Point) {
                        *n = d
                    }
                }
                4 => *n = of_point(&g),
                5 => {
                    // an x that may or may not be on the curve
                    let mut s = "02".to_string();
                    for b in to_be(&FN.red(&le(&e.v.0))) {
                        s += &format!("{:02X}", b);
                    }
                    *n = Value::from(s)
                }
                _ => {
                    if let Some(q) = point(n) {
                        *n = of_point(&SECQ.add(&q, &q))
                    }
                }
            }
        }
        Kind::List => {
            let a = n.as_array_mut().unwrap();
            let l = a.len();
            let i = if l > 0 { e.other as usize % l } else { 0 };
            match what {
                0 => {
                    a.pop();
                }
                1 => {
                    if l > 0 {
                        a.remove(0);
                    }
                }
                2 => {
                    if l > 0 {
                        a.push(a[i].clone())
                    }
                }
                3 => {
                    if l > 0 {
                        a.insert(0, a[i].clone())
                    }
                }
                4 => a.clear(),
                5 => {
                    if l > 1 {
                        a.swap(i, (i + 1) % l)
                    }
                }
                6 => {
                    if l > 0 {
                        a.remove(i);
                    }
                }
                _ => {
                    // a fitting extra element that is neutral: zero, or the identity
                    if l > 0 {
                        let x = if is_scalar(&a[0]) {
                            of_scalar(&u(0))
                        } else if is_point(&a[0]) {
                            of_point(&None)
                        } else {
                            a[l - 1].clone()
                        };
                        a.push(x)
                    }
                }
            }
        }
    }
    format!("{:?} {} edit {}", kind, show(p), what)
}
/// Applies the edits; parallel lists (same length, same parent) can be changed together.
pub fn apply(v: &Value, es: &[Edit], pool: &Value, together: bool) -> (Value, String) {
    let mut out = v.clone();
    let mut log = vec![];
    for e in es {
        let all = nodes(&out);
        if all.is_empty() {
            break;
        }
        let (p, k) = all[e.at as usize % all.len()].clone();
        if together && k == Kind::List && !p.is_empty() {
            let l = get(&out, &p).as_array().unwrap().len();
            let parent = &p[..p.len() - 1];
            let sib: Vec<Path> = all
                .iter()
                .filter(|(q, kk)| *kk == Kind::List && q.len() == p.len() && q[..q.len() - 1] == *parent && get(&out, q).as_array().unwrap().len() == l)
                .map(|x| x.0.clone())
                .collect();
            for q in sib {
                log.push(change(&mut out, &q, k, e, pool));
            }
        } else {
            log.push(change(&mut out, &p, k, e, pool));
        }
    }
    (out, log.join("; "))
}
