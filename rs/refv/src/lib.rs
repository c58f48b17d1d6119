//! A verifier for Spartan proofs over secq256k1, written from the protocol's definition on top of
//! `refm`'s arithmetic: it reads the bytes of a proof and says why it is refused.  Nothing here
//! calls /repo; its transcript messages, generators and equations are the published protocol's.
#![allow(non_snake_case)]
use merlin::Transcript;
use refm::ec::{Pt, SECQ};
use refm::*;
use std::collections::HashMap;
use std::sync::Mutex;

pub mod prove;
pub type V<T> = Result<T, String>;
macro_rules! want {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

thread_local! {
    static FAILED: std::cell::RefCell<Option<Vec<String>>> = std::cell::RefCell::new(None);
}
/// Every equation that does not hold, instead of the first.
pub fn all_failures(f: impl FnOnce() -> V<()>) -> Vec<String> {
    FAILED.with(|x| *x.borrow_mut() = Some(vec![]));
    let r = f();
    let mut v = FAILED.with(|x| x.borrow_mut().take().unwrap());
    if let Err(e) = r {
        v.push(e)
    }
    v
}
fn holds(c: bool, m: impl FnOnce() -> String) -> V<()> {
    if c {
        return Ok(());
    }
    FAILED.with(|x| match x.borrow_mut().as_mut() {
        Some(v) => {
            v.push(m());
            Ok(())
        }
        None => Err(m()),
    })
}
macro_rules! eqn {
    ($c:expr, $($m:tt)*) => { holds($c, || format!($($m)*))?; };
}

/// The wire format (bincode: little-endian u64 lengths).
pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> V<&'a [u8]> {
        want!(n <= self.0.len(), "the bytes end early");
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    pub fn len(&mut self) -> V<usize> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().unwrap());
        want!(n <= 1 << 32, "a length of {}", n);
        Ok(n as usize)
    }
    pub fn s(&mut self) -> V<U> {
        want!(self.len()? == 32, "a scalar's length");
        let v = le(self.take(32)?.try_into().unwrap());
        want!(lt(&v, &P), "a scalar that is not reduced");
        Ok(v)
    }
    pub fn p(&mut self) -> V<Pt> {
        let n = self.len()?;
        point(self.take(n)?)
    }
    pub fn many<T>(&mut self, f: impl Fn(&mut Self) -> V<T>) -> V<Vec<T>> {
        let n = self.len()?;
        want!(n <= self.0.len(), "a list of {} elements", n);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn ss(&mut self) -> V<Vec<U>> {
        self.many(|r| r.s())
    }
    pub fn ps(&mut self) -> V<Vec<Pt>> {
        self.many(|r| r.p())
    }
    pub fn end(&self) -> V<()> {
        want!(self.0.is_empty(), "{} bytes too many", self.0.len());
        Ok(())
    }
}
pub fn point(b: &[u8]) -> V<Pt> {
    if b == [0] {
        return Ok(None);
    }
    want!(b.len() == 33 && (b[0] == 2 || b[0] == 3), "not a compressed point");
    let x = be(b[1..].try_into().unwrap());
    want!(lt(&x, &N), "a coordinate that is not reduced");
    let p = SECQ.lift(&x, b[0] == 3);
    want!(p.is_some(), "no point has this x coordinate");
    Ok(p)
}

/// The transcript.
pub struct T(pub Transcript);
type L = &'static [u8];
impl T {
    pub fn new(l: L) -> T {
        T(Transcript::new(l))
    }
    fn name(&mut self, n: L) {
        self.0.append_message(b"protocol-name", n)
    }
    pub fn msg(&mut self, l: L, m: &[u8]) {
        self.0.append_message(l, m)
    }
    fn n(&mut self, l: L, x: usize) {
        self.0.append_message(l, &(x as u64).to_le_bytes())
    }
    fn s(&mut self, l: L, x: &U) {
        self.0.append_message(l, &to_le(x))
    }
    fn p(&mut self, l: L, x: &Pt) {
        self.0.append_message(l, &SECQ.compress(x))
    }
    fn ss(&mut self, l: L, x: &[U]) {
        self.msg(l, b"begin_append_vector");
        for v in x {
            self.s(l, v)
        }
        self.msg(l, b"end_append_vector");
    }
    fn rows(&mut self, l: L, c: &[Pt]) {
        self.msg(l, b"poly_commitment_begin");
        for p in c {
            self.p(b"poly_commitment_share", p)
        }
        self.msg(l, b"poly_commitment_end");
    }
    fn ch(&mut self, l: L) -> U {
        let mut b = [0; 64];
        self.0.challenge_bytes(l, &mut b);
        FP.from_le_bytes(&b)
    }
    fn chs(&mut self, l: L, n: usize) -> Vec<U> {
        (0..n).map(|_| self.ch(l)).collect()
    }
}

/// Generators: points hashed from SHAKE256(label, generator), the last of n + 1 being the blinding one.
#[derive(Clone)]
pub struct G {
    pub g: Vec<Pt>,
    pub h: Pt,
}
pub fn stream(label: &[u8], n: usize) -> Vec<Pt> {
    static CACHE: Mutex<Option<HashMap<Vec<u8>, Vec<Pt>>>> = Mutex::new(None);
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    let v = c.get_or_insert_with(HashMap::new).entry(label.to_vec()).or_default();
    if v.len() < n {
        let mut seed = label.to_vec();
        seed.extend(SECQ.compress(&ec::g_secq()));
        let b = keccak1600::shake256(&seed, 128 * n);
        let h = swu::h2c();
        for i in v.len()..n {
            v.push(h.hash(&b[128 * i..128 * i + 128]));
        }
    }
    v[..n].to_vec()
}
pub fn gens(label: &[u8], n: usize) -> G {
    let mut g = stream(label, n + 1);
    let h = g.pop().unwrap();
    G { g, h }
}
/// (generators for vectors, generator for values)
pub fn dot_gens(label: &[u8], n: usize) -> (G, G) {
    let mut a = gens(label, n + 1);
    let one = a.g.pop().unwrap();
    let h = a.h;
    (a, G { g: vec![one], h })
}
/// Of a committed polynomial in v variables.
pub fn poly_gens(label: &[u8], v: usize) -> (G, G) {
    dot_gens(label, 1 << (v - v / 2))
}
pub fn com(v: &[U], r: &U, g: &G) -> Pt {
    assert_eq!(v.len(), g.g.len());
    let mut t: Vec<(U, Pt)> = v.iter().cloned().zip(g.g.iter().cloned()).collect();
    t.push((*r, g.h));
    SECQ.msm(&t)
}
fn lin(t: &[(U, Pt)]) -> Pt {
    SECQ.msm(t)
}
fn add(a: &U, b: &U) -> U {
    FP.add(a, b)
}
fn sub(a: &U, b: &U) -> U {
    FP.sub(a, b)
}
fn mul(a: &U, b: &U) -> U {
    FP.mul(a, b)
}
fn dot(a: &[U], b: &[U]) -> U {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(u(0), |s, (x, y)| add(&s, &mul(x, y)))
}
fn prod<'a>(a: impl IntoIterator<Item = &'a U>) -> U {
    a.into_iter().fold(u(1), |s, x| mul(&s, x))
}
/// eq(r, i) for every i, the first coordinate being the most significant bit.
pub fn eqs(r: &[U]) -> Vec<U> {
    let mut t = vec![u(1)];
    for x in r {
        t = t.iter().flat_map(|e| [sub(e, &mul(e, x)), mul(e, x)]).collect();
    }
    t
}
pub fn eq(a: &[U], b: &[U]) -> U {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).fold(u(1), |s, (x, y)| {
        let n = |v: &U| sub(&u(1), v);
        mul(&s, &add(&mul(x, y), &mul(&n(x), &n(y))))
    })
}
pub fn mle(z: &[U], r: &[U]) -> U {
    dot(z, &eqs(r))
}
fn log2(n: usize) -> usize {
    n.next_power_of_two().trailing_zeros() as usize
}

/// Knowledge of an opening of C.
pub fn knowledge(t: &mut T, g: &G, C: &Pt, r: &mut Rd) -> V<()> {
    let (alpha, z1, z2) = (r.p()?, r.s()?, r.s()?);
    t.name(b"knowledge proof");
    t.p(b"C", C);
    t.p(b"alpha", &alpha);
    let c = t.ch(b"c");
    eqn!(com(&[z1], &z2, g) == lin(&[(c, *C), (u(1), alpha)]), "knowledge proof");
    Ok(())
}
/// C1 and C2 commit to the same value.
pub fn equality(t: &mut T, g: &G, C1: &Pt, C2: &Pt, r: &mut Rd) -> V<()> {
    let (alpha, z) = (r.p()?, r.s()?);
    t.name(b"equality proof");
    t.p(b"C1", C1);
    t.p(b"C2", C2);
    t.p(b"alpha", &alpha);
    let c = t.ch(b"c");
    eqn!(lin(&[(z, g.h)]) == lin(&[(c, *C1), (c, SECQ.neg(C2)), (u(1), alpha)]), "equality proof");
    Ok(())
}
/// Z commits to the product of what X and Y commit to.
pub fn product(t: &mut T, g: &G, X: &Pt, Y: &Pt, Z: &Pt, r: &mut Rd) -> V<()> {
    let (alpha, beta, delta) = (r.p()?, r.p()?, r.p()?);
    let z = [r.s()?, r.s()?, r.s()?, r.s()?, r.s()?];
    t.name(b"product proof");
    for (l, p) in [(b"X" as L, X), (b"Y", Y), (b"Z", Z), (b"alpha", &alpha), (b"beta", &beta), (b"delta", &delta)] {
        t.p(l, p)
    }
    let c = t.ch(b"c");
    let side = |a: &Pt, X: &Pt| lin(&[(c, *X), (u(1), *a)]);
    eqn!(side(&alpha, X) == com(&[z[0]], &z[1], g), "product proof: X");
    eqn!(side(&beta, Y) == com(&[z[2]], &z[3], g), "product proof: Y");
    eqn!(side(&delta, Z) == com(&[z[2]], &z[4], &G { g: vec![*X], h: g.h }), "product proof: Z");
    Ok(())
}
/// Cy commits to the inner product of a and what Cx commits to.
pub fn dotproduct(t: &mut T, g1: &G, gn: &G, a: &[U], Cx: &Pt, Cy: &Pt, r: &mut Rd) -> V<()> {
    let (delta, beta, z, z_delta, z_beta) = (r.p()?, r.p()?, r.ss()?, r.s()?, r.s()?);
    t.name(b"dot product proof");
    t.p(b"Cx", Cx);
    t.p(b"Cy", Cy);
    t.ss(b"a", a);
    t.p(b"delta", &delta);
    t.p(b"beta", &beta);
    let c = t.ch(b"c");
    want!(z.len() == gn.g.len() && a.len() == gn.g.len(), "dot product proof: length");
    eqn!(lin(&[(c, *Cx), (u(1), delta)]) == com(&z, &z_delta, gn), "dot product proof: vector");
    eqn!(lin(&[(c, *Cy), (u(1), beta)]) == com(&[dot(&z, a)], &z_beta, g1), "dot product proof: value");
    Ok(())
}
/// The same, with a proof of logarithmic size.
pub fn dotlog(t: &mut T, (gn, g1): &(G, G), a: &[U], Cx: &Pt, Cy: &Pt, rd: &mut Rd) -> V<()> {
    let (Ls, Rs) = (rd.ps()?, rd.ps()?);
    let (delta, beta, z1, z2) = (rd.p()?, rd.p()?, rd.s()?, rd.s()?);
    let n = a.len();
    want!(gn.g.len() == n && n.is_power_of_two(), "log dot product: length");
    t.name(b"dot product proof (log)");
    t.p(b"Cx", Cx);
    t.p(b"Cy", Cy);
    t.ss(b"a", a);
    let r = t.ch(b"r");
    want!(1usize << Ls.len() == n && Rs.len() == Ls.len(), "log dot product: rounds");
    let k = Ls.len();
    let mut gamma = vec![(u(1), *Cx), (r, *Cy)];
    let mut us = vec![];
    for (l, rr) in Ls.iter().zip(&Rs) {
        t.p(b"L", l);
        t.p(b"R", rr);
        let x = t.ch(b"u");
        let i = FP.inv(&x);
        gamma.push((FP.sq(&x), *l));
        gamma.push((FP.sq(&i), *rr));
        us.push((x, i));
    }
    t.p(b"delta", &delta);
    t.p(b"beta", &beta);
    let c = t.ch(b"c");
    // index i takes u_j when its j-th bit from the top is set, and 1/u_j when it is not
    let s: Vec<U> = (0..n).map(|i| prod(&(0..k).map(|j| if i >> (k - 1 - j) & 1 == 1 { us[j].0 } else { us[j].1 }).collect::<Vec<_>>())).collect();
    let a_hat = dot(a, &s);
    let ca = mul(&c, &a_hat);
    let mut lhs: Vec<(U, Pt)> = gamma.iter().map(|(k, p)| (mul(k, &ca), *p)).collect();
    lhs.push((a_hat, beta));
    lhs.push((u(1), delta));
    let mut rhs: Vec<(U, Pt)> = s.iter().zip(&gn.g).map(|(k, p)| (mul(k, &z1), *p)).collect();
    rhs.push((mul(&mul(&r, &a_hat), &z1), g1.g[0]));
    rhs.push((mul(&r, &u(0)), None));
    rhs.push((z2, g1.h));
    eqn!(lin(&lhs) == lin(&rhs), "log dot product");
    Ok(())
}
/// The polynomial committed to by `rows` has at r the value C commits to.
pub fn opening(t: &mut T, g: &(G, G), r: &[U], C: &Pt, rows: &[Pt], rd: &mut Rd) -> V<()> {
    t.name(b"polynomial evaluation proof");
    let (a, b) = r.split_at(r.len() / 2);
    let (a, b) = (eqs(a), eqs(b));
    want!(rows.len() == a.len(), "an opened commitment has {} rows", rows.len());
    let Cx = lin(&a.into_iter().zip(rows.iter().cloned()).collect::<Vec<_>>());
    dotlog(t, g, &b, &Cx, C, rd)
}
pub fn opening_plain(t: &mut T, g: &(G, G), r: &[U], v: &U, rows: &[Pt], rd: &mut Rd) -> V<()> {
    let C = com(&[*v], &u(0), &g.1);
    opening(t, g, r, &C, rows, rd)
}
/// Sum-check over committed polynomials of the given degree; (commitment to the last value, point).
pub fn zk_sumcheck(t: &mut T, claim: &Pt, rounds: usize, deg: usize, g1: &G, gn: &G, r: &mut Rd) -> V<(Pt, Vec<U>)> {
    let (polys, evals) = (r.ps()?, r.ps()?);
    let n = r.len()?;
    want!(polys.len() == rounds && evals.len() == rounds && n == rounds, "sum-check: rounds");
    want!(gn.g.len() == deg + 1 && rounds > 0, "sum-check: degree");
    let (mut rs, mut cur) = (vec![], *claim);
    for i in 0..rounds {
        t.p(b"comm_poly", &polys[i]);
        let x = t.ch(b"challenge_nextround");
        t.p(b"comm_claim_per_round", &cur);
        t.p(b"comm_eval", &evals[i]);
        let w = t.chs(b"combine_two_claims_to_one", 2);
        let target = lin(&[(w[0], cur), (w[1], evals[i])]);
        // p(0) + p(1) and p(x) as inner products with the coefficients
        let mut pw = u(1);
        let mut a = vec![];
        for j in 0..=deg {
            let sum = if j == 0 { u(2) } else { u(1) };
            a.push(add(&mul(&w[0], &sum), &mul(&w[1], &pw)));
            pw = mul(&pw, &x);
        }
        dotproduct(t, g1, gn, &a, &polys[i], &target, r)?;
        rs.push(x);
        cur = evals[i];
    }
    Ok((cur, rs))
}
/// Sum-check in the clear; the polynomials come without their linear term.
pub fn sumcheck(t: &mut T, claim: &U, rounds: usize, deg: usize, r: &mut Rd) -> V<(U, Vec<U>)> {
    let polys = r.many(|r| r.ss())?;
    want!(polys.len() == rounds, "sum-check: rounds");
    let (mut e, mut rs) = (*claim, vec![]);
    for p in polys {
        want!(p.len() == deg, "sum-check: degree");
        let mut lin = sub(&e, &add(&p[0], &p[0]));
        for c in &p[1..] {
            lin = sub(&lin, c)
        }
        let mut c = vec![p[0], lin];
        c.extend(&p[1..]);
        t.msg(b"poly", b"UniPoly_begin");
        for v in &c {
            t.s(b"coeff", v)
        }
        t.msg(b"poly", b"UniPoly_end");
        let x = t.ch(b"challenge_nextround");
        e = c.iter().rev().fold(u(0), |a, v| add(&mul(&a, &x), v));
        rs.push(x);
    }
    Ok((e, rs))
}
/// A product of `len` values in the clear; (value of their extension, point).
pub fn product_circuit(t: &mut T, eval: &U, len: usize, r: &mut Rd) -> V<(U, Vec<U>)> {
    let n = r.len()?;
    want!(n == log2(len), "product circuit: layers");
    let (mut claim, mut rand) = (*eval, vec![]);
    for i in 0..n {
        let (last, rp) = sumcheck(t, &claim, i, 3, r)?;
        let c = r.ss()?;
        want!(c.len() == 2, "product circuit: claims");
        t.s(b"claim_prod_left", &c[0]);
        t.s(b"claim_prod_right", &c[1]);
        eqn!(mul(&mul(&c[0], &c[1]), &eq(&rand, &rp)) == last, "product circuit: layer {}", i);
        let x = t.ch(b"challenge_r_layer");
        claim = add(&c[0], &mul(&x, &sub(&c[1], &c[0])));
        rand = [vec![x], rp].concat();
    }
    Ok((claim, rand))
}
/// Several products and (in the last layer) split inner products; (values, inner products' values, point).
pub fn batched(t: &mut T, prods: &[U], dots: &[U], len: usize, r: &mut Rd) -> V<(Vec<U>, Vec<U>, Vec<U>)> {
    struct Layer {
        polys: Vec<u8>,
        l: Vec<U>,
        r: Vec<U>,
    }
    let n = r.len()?;
    want!(n == log2(len) && n > 0, "product circuits: layers");
    let mut layers = vec![];
    for _ in 0..n {
        let at = r.0;
        r.many(|r| r.ss())?;
        let polys = at[..at.len() - r.0.len()].to_vec();
        layers.push(Layer { polys, l: r.ss()?, r: r.ss()? });
    }
    let d = [r.ss()?, r.ss()?, r.ss()?];
    want!(d.iter().all(|v| v.len() == dots.len()), "product circuits: inner products");
    let (mut claims, mut rand, k) = (prods.to_vec(), vec![], prods.len());
    let mut out = vec![];
    for (i, la) in layers.iter().enumerate() {
        let last = i == n - 1;
        if last {
            claims.extend(dots)
        }
        let co = t.chs(b"rand_coeffs_next_layer", claims.len());
        let (e, rp) = sumcheck(t, &dot(&claims, &co), i, 3, &mut Rd(&la.polys))?;
        want!(la.l.len() == k && la.r.len() == k, "product circuits: claims");
        for j in 0..k {
            t.s(b"claim_prod_left", &la.l[j]);
            t.s(b"claim_prod_right", &la.r[j]);
        }
        let q = eq(&rand, &rp);
        let mut sum = (0..k).fold(u(0), |s, j| add(&s, &prod([&co[j], &la.l[j], &la.r[j], &q])));
        if last {
            for j in 0..dots.len() {
                t.s(b"claim_dotp_left", &d[0][j]);
                t.s(b"claim_dotp_right", &d[1][j]);
                t.s(b"claim_dotp_weight", &d[2][j]);
                sum = add(&sum, &prod([&co[k + j], &d[0][j], &d[1][j], &d[2][j]]));
            }
        }
        eqn!(sum == e, "product circuits: layer {}", i);
        let x = t.ch(b"challenge_r_layer");
        let mix = |a: &U, b: &U| add(a, &mul(&x, &sub(b, a)));
        claims = (0..k).map(|j| mix(&la.l[j], &la.r[j])).collect();
        if last {
            for j in 0..dots.len() / 2 {
                for v in &d {
                    out.push(mix(&v[2 * j], &v[2 * j + 1]))
                }
            }
        }
        rand = [vec![x], rp].concat();
    }
    Ok((claims, out, rand))
}

/// Commitment to k sparse matrices.
#[derive(Debug, Clone, PartialEq)]
pub struct SparseCom {
    pub batch: usize,
    pub ops: usize,
    pub cells: usize,
    pub comb_ops: Vec<Pt>,
    pub comb_mem: Vec<Pt>,
}
pub struct SparseGens {
    pub ops: (G, G),
    pub mem: (G, G),
    pub derefs: (G, G),
}
pub fn sparse_gens(label: &[u8], x: usize, y: usize, nnz: usize, k: usize) -> SparseGens {
    let n = log2(nnz.max(2));
    SparseGens { ops: poly_gens(label, n + log2(5 * k)), mem: poly_gens(label, x.max(y) + 1), derefs: poly_gens(label, n + log2(2 * k)) }
}
impl SparseCom {
    pub fn read(r: &mut Rd) -> V<SparseCom> {
        Ok(SparseCom { batch: r.len()?, ops: r.len()?, cells: r.len()?, comb_ops: r.ps()?, comb_mem: r.ps()? })
    }
    fn absorb(&self, t: &mut T) {
        t.n(b"batch_size", self.batch);
        t.n(b"num_ops", self.ops);
        t.n(b"num_mem_cells", self.cells);
        t.rows(b"comm_comb_ops", &self.comb_ops);
        t.rows(b"comm_comb_mem", &self.comb_mem);
    }
}
fn commit(mut z: Vec<U>, g: &G) -> Vec<Pt> {
    z.resize(z.len().next_power_of_two(), u(0));
    let w = g.g.len();
    assert_eq!(z.len() % w, 0);
    z.chunks(w).map(|c| com(c, &u(0), g)).collect()
}
pub type Mat = Vec<(usize, usize, U)>;
/// The commitment a matrix triple has: addresses and read timestamps of rows and of columns, values;
/// final timestamps.  Memories are shared by the matrices, in order.
pub fn sparse_commit(ms: &[Mat], x: usize, y: usize, g: &SparseGens) -> SparseCom {
    let n = ms.iter().map(|m| m.len().next_power_of_two()).max().unwrap().max(2);
    let cells = 1usize << x.max(y);
    let mut ops: Vec<Vec<U>> = vec![vec![]; 5];
    let mut mem = vec![];
    for side in 0..2 {
        let mut audit = vec![0u64; cells];
        for m in ms {
            for i in 0..n {
                let a = m.get(i).map(|e| if side == 0 { e.0 } else { e.1 }).unwrap_or(0);
                ops[2 * side].push(u(a as u64));
                ops[2 * side + 1].push(u(audit[a]));
                audit[a] += 1;
            }
        }
        mem.extend(audit.iter().map(|t| u(*t)));
    }
    for m in ms {
        for i in 0..n {
            ops[4].push(m.get(i).map(|e| e.2).unwrap_or(u(0)))
        }
    }
    SparseCom { batch: ms.len(), ops: n, cells, comb_ops: commit(ops.concat(), &g.ops.0), comb_mem: commit(mem, &g.mem.0) }
}
/// The committed matrices have the values `evals` at (rx, ry).
pub fn sparse(t: &mut T, cm: &SparseCom, rx: &[U], ry: &[U], evals: &[U], g: &SparseGens, r: &mut Rd) -> V<()> {
    let k = evals.len();
    t.name(b"Sparse polynomial evaluation proof");
    let n = rx.len().max(ry.len());
    let ext = |v: &[U]| [vec![u(0); n - v.len()], v.to_vec()].concat();
    let (rx, ry) = (ext(rx), ext(ry));
    want!(1usize << n == cm.cells, "sparse evaluation: {} memory cells", cm.cells);
    let derefs = r.ps()?;
    t.msg(b"derefs_commitment", b"begin_derefs_commitment");
    t.rows(b"comm_poly_row_col_ops_val", &derefs);
    t.msg(b"derefs_commitment", b"end_derefs_commitment");
    let h = t.chs(b"challenge_r_hash", 2);
    t.name(b"Sparse polynomial evaluation proof");
    // product layer
    t.name(b"Sparse polynomial product layer proof");
    let mut sides = vec![];
    for (_, l) in [(0, [b"claim_row_eval_init" as L, b"claim_row_eval_read", b"claim_row_eval_write", b"claim_row_eval_audit"]), (1, [b"claim_col_eval_init", b"claim_col_eval_read", b"claim_col_eval_write", b"claim_col_eval_audit"])] {
        let (init, read, write, audit) = (r.s()?, r.ss()?, r.ss()?, r.s()?);
        want!(read.len() == k && write.len() == k, "memory check: instances");
        eqn!(mul(&init, &prod(&write)) == mul(&prod(&read), &audit), "memory check: the sets differ");
        t.s(l[0], &init);
        t.ss(l[1], &read);
        t.ss(l[2], &write);
        t.s(l[3], &audit);
        sides.push((init, read, write, audit));
    }
    let (dl, dr) = (r.ss()?, r.ss()?);
    want!(dl.len() == k && dr.len() == k, "evaluation claims");
    let mut dots = vec![];
    for i in 0..k {
        eqn!(add(&dl[i], &dr[i]) == evals[i], "evaluation {} is not the sum of its halves", i);
        t.s(b"claim_eval_dotp_left", &dl[i]);
        t.s(b"claim_eval_dotp_right", &dr[i]);
        dots.extend([dl[i], dr[i]]);
    }
    let (a, b) = (&sides[0], &sides[1]);
    let prods = [a.1.clone(), a.2.clone(), b.1.clone(), b.2.clone()].concat();
    // the proof for the memories comes first in the encoding and second in the transcript
    let at = r.0;
    skip_batched(r)?;
    let memb = &at[..at.len() - r.0.len()];
    let (ops, dot_claims, rand_ops) = batched(t, &prods, &dots, cm.ops.next_power_of_two(), r)?;
    let (mem, _, rand_mem) = batched(t, &[a.0, a.3, b.0, b.3], &[], cm.cells, &mut Rd(memb))?;
    // hash layer
    t.name(b"Sparse polynomial hash layer proof");
    let row = (r.ss()?, r.ss()?, r.s()?);
    let col = (r.ss()?, r.ss()?, r.s()?);
    let val = r.ss()?;
    let (drow, dcol) = (r.ss()?, r.ss()?);
    // openings, in the order of the encoding
    let at = r.0;
    for _ in 0..2 {
        skip_opening(r)?
    }
    let mut first = Rd(&at[..at.len() - r.0.len()]);
    want!([row.0.len(), row.1.len(), col.0.len(), col.1.len(), val.len(), drow.len(), dcol.len()].iter().all(|n| *n == k), "hash layer: instances");
    t.name(b"Derefs evaluation proof");
    joint(t, b"evals_ops_val", b"challenge_combine_n_to_one", b"joint_claim_eval", [drow.clone(), dcol.clone()].concat(), &rand_ops, &g.derefs, &derefs, r)?;
    for i in 0..k {
        eqn!(dot_claims[3 * i] == drow[i] && dot_claims[3 * i + 1] == dcol[i] && dot_claims[3 * i + 2] == val[i], "hash layer: evaluation {}", i);
    }
    let all = [row.0.clone(), row.1.clone(), col.0.clone(), col.1.clone(), val].concat();
    joint(t, b"claim_evals_ops", b"challenge_combine_n_to_one", b"joint_claim_eval_ops", all, &rand_ops, &g.ops, &cm.comb_ops, &mut first)?;
    joint(t, b"claim_evals_mem", b"challenge_combine_two_to_one", b"joint_claim_eval_mem", vec![row.2, col.2], &rand_mem, &g.mem, &cm.comb_mem, &mut first)?;
    let hash = |a: &U, v: &U, ts: &U| sub(&add(&add(&mul(ts, &FP.sq(&h[0])), &mul(v, &h[0])), a), &h[1]);
    let id = rand_mem.iter().fold(u(0), |s, x| add(&add(&s, &s), x));
    for (s, (side, point, derefd)) in [(&row, &rx, &drow), (&col, &ry, &dcol)].iter().enumerate() {
        let mv = eq(point, &rand_mem);
        eqn!(hash(&id, &mv, &u(0)) == mem[2 * s], "hash layer: initial memory");
        eqn!(hash(&id, &mv, &side.2) == mem[2 * s + 1], "hash layer: final memory");
        for i in 0..k {
            eqn!(hash(&side.0[i], &derefd[i], &side.1[i]) == ops[2 * s * k + i], "hash layer: reads");
            eqn!(hash(&side.0[i], &derefd[i], &add(&side.1[i], &u(1))) == ops[(2 * s + 1) * k + i], "hash layer: writes");
        }
    }
    Ok(())
}
fn skip_opening(r: &mut Rd) -> V<()> {
    (r.ps()?, r.ps()?, r.p()?, r.p()?, r.s()?, r.s()?);
    Ok(())
}
fn skip_batched(r: &mut Rd) -> V<()> {
    r.many(|r| {
        r.many(|r| r.ss())?;
        r.ss()?;
        r.ss()
    })?;
    for _ in 0..3 {
        r.ss()?;
    }
    Ok(())
}
/// Several polynomials committed to as one: one opening of a random combination.
fn joint(t: &mut T, l: L, lc: L, lj: L, mut evals: Vec<U>, r: &[U], g: &(G, G), rows: &[Pt], rd: &mut Rd) -> V<()> {
    evals.resize(evals.len().next_power_of_two(), u(0));
    t.ss(l, &evals);
    let c = t.chs(lc, log2(evals.len()));
    let v = mle(&evals, &c);
    t.s(lj, &v);
    opening_plain(t, g, &[c, r.to_vec()].concat(), &v, rows, rd)
}

/// An R1CS instance as the proof system sees it: powers of two, z = (vars, 1, inputs, 0...).
#[derive(Debug, Clone)]
pub struct Inst {
    pub cons: usize,
    pub vars: usize,
    pub inputs: usize,
    pub m: [Mat; 3],
}
impl Inst {
    /// From the caller's numbers; columns from `vars` on are the constant and the inputs.
    pub fn new(cons: usize, vars: usize, inputs: usize, m: [Mat; 3]) -> Inst {
        let v = vars.max(inputs + 1).next_power_of_two();
        let c = cons.max(2).next_power_of_two();
        let m = m.map(|m| m.into_iter().map(|(r, c, x)| (r, if c >= vars { c + v - vars } else { c }, x)).collect());
        Inst { cons: c, vars: v, inputs, m }
    }
    fn evals(&self, rx: &[U], ry: &[U]) -> [U; 3] {
        let (a, b) = (eqs(rx), eqs(ry));
        [0, 1, 2].map(|k| self.m[k].iter().fold(u(0), |s, (r, c, v)| add(&s, &prod([&a[*r], &b[*c], v]))))
    }
    /// Entries added up, without zeros.
    pub fn canon(m: &Mat) -> std::collections::BTreeMap<(usize, usize), U> {
        let mut o = std::collections::BTreeMap::new();
        for (r, c, v) in m {
            let e = o.entry((*r, *c)).or_insert(u(0));
            *e = add(e, v);
        }
        o.retain(|_, v| !is_zero(v));
        o
    }
    /// As serialised by the library: (instance, digest).
    pub fn read(r: &mut Rd) -> V<(Inst, Vec<u8>)> {
        let (cons, vars, inputs) = (r.len()?, r.len()?, r.len()?);
        let mut m = vec![];
        for _ in 0..3 {
            let (x, y) = (r.len()?, r.len()?);
            want!(x == log2(cons) && y == log2(2 * vars), "an instance's matrix is {} by {}", x, y);
            m.push(r.many(|r| Ok((r.len()?, r.len()?, r.s()?)))?);
        }
        let n = r.len()?;
        let digest = r.take(n)?.to_vec();
        Ok((Inst { cons, vars, inputs, m: m.try_into().unwrap() }, digest))
    }
    pub fn commitment(&self, g: &SparseGens) -> SparseCom {
        sparse_commit(&self.m, log2(self.cons), log2(2 * self.vars), g)
    }
    pub fn sparse_gens(&self, nnz: usize) -> SparseGens {
        sparse_gens(b"gens_r1cs_eval", log2(self.cons), log2(2 * self.vars), nnz, 3)
    }
}
/// The satisfiability proof: (rx, ry) to be confirmed, given what the matrices are at them.
fn r1cs(t: &mut T, i: (usize, usize), input: &[U], evals: &mut dyn FnMut(&[U], &[U]) -> [U; 3], r: &mut Rd) -> V<(Vec<U>, Vec<U>)> {
    let (cons, vars) = i;
    let lb = b"gens_r1cs_sat";
    let pc = poly_gens(lb, log2(vars));
    let g1 = pc.1.clone();
    t.name(b"R1CS proof");
    t.ss(b"input", input);
    let rows = r.ps()?;
    t.rows(b"poly_commitment", &rows);
    let tau = t.chs(b"challenge_tau", log2(cons));
    let zero = None;
    let (post1, rx) = zk_sumcheck(t, &zero, log2(cons), 3, &g1, &gens(lb, 4), r)?;
    let (ca, cb, cc, cab) = (r.p()?, r.p()?, r.p()?, r.p()?);
    knowledge(t, &g1, &cc, r)?;
    product(t, &g1, &ca, &cb, &cab, r)?;
    t.p(b"comm_Az_claim", &ca);
    t.p(b"comm_Bz_claim", &cb);
    t.p(b"comm_Cz_claim", &cc);
    t.p(b"comm_prod_Az_Bz_claims", &cab);
    let q = eq(&tau, &rx);
    let expect = lin(&[(q, cab), (q, SECQ.neg(&cc))]);
    equality(t, &g1, &expect, &post1, r)?;
    let (a, b, c) = (t.ch(b"challenege_Az"), t.ch(b"challenege_Bz"), t.ch(b"challenege_Cz"));
    let claim2 = lin(&[(a, ca), (b, cb), (c, cc)]);
    let (post2, ry) = zk_sumcheck(t, &claim2, log2(2 * vars), 2, &g1, &gens(lb, 3), r)?;
    let at_ry = r.p()?;
    opening(t, &pc, &ry[1..], &at_ry, &rows, r)?;
    let e = eqs(&ry[1..]);
    want!(input.len() < vars, "too many inputs");
    let pub_eval = input.iter().enumerate().fold(e[0], |s, (i, v)| add(&s, &mul(&e[i + 1], v)));
    let z = lin(&[(sub(&u(1), &ry[0]), at_ry), (mul(&ry[0], &pub_eval), g1.g[0])]);
    let ev = evals(&rx, &ry);
    let k = add(&add(&mul(&a, &ev[0]), &mul(&b, &ev[1])), &mul(&c, &ev[2]));
    equality(t, &g1, &lin(&[(k, z)]), &post2, r)?;
    Ok((rx, ry))
}
/// A non-interactive proof that the instance has a solution with these inputs.
pub fn nizk(i: &Inst, digest: &[u8], input: &[U], label: L, proof: &[u8]) -> V<()> {
    let t = &mut T::new(label);
    let r = &mut Rd(proof);
    t.name(b"Spartan NIZK proof");
    t.msg(b"R1CSInstanceDigest", digest);
    want!(input.len() == i.inputs, "{} inputs for {}", input.len(), i.inputs);
    // the instance is evaluated at the point that the proof names
    let at = r.0;
    skip_r1cs(r)?;
    let sat = &at[..at.len() - r.0.len()];
    let claimed = (r.ss()?, r.ss()?);
    want!((claimed.0.len(), claimed.1.len()) == (log2(i.cons), log2(2 * i.vars)), "the claimed point's size");
    let ev = i.evals(&claimed.0, &claimed.1);
    let point = r1cs(t, (i.cons, i.vars), input, &mut |_, _| ev, &mut Rd(sat))?;
    eqn!(claimed == point, "the claimed point");
    r.end()
}
/// The same for a committed instance.
pub fn snark(i: &Inst, cm: &SparseCom, input: &[U], nnz: usize, label: L, proof: &[u8]) -> V<()> {
    let t = &mut T::new(label);
    let r = &mut Rd(proof);
    t.name(b"Spartan SNARK proof");
    t.n(b"num_cons", i.cons);
    t.n(b"num_vars", i.vars);
    t.n(b"num_inputs", i.inputs);
    cm.absorb(t);
    want!(input.len() == i.inputs, "{} inputs for {}", input.len(), i.inputs);
    // the evaluations follow the satisfiability proof in the encoding
    let at = r.0;
    skip_r1cs(r)?;
    let sat = &at[..at.len() - r.0.len()];
    let ev = [r.s()?, r.s()?, r.s()?];
    let (rx, ry) = r1cs(t, (i.cons, i.vars), input, &mut |_, _| ev, &mut Rd(sat))?;
    t.s(b"Ar_claim", &ev[0]);
    t.s(b"Br_claim", &ev[1]);
    t.s(b"Cr_claim", &ev[2]);
    sparse(t, cm, &rx, &ry, &ev, &i.sparse_gens(nnz), r)?;
    r.end()
}
fn skip_sumcheck(r: &mut Rd) -> V<()> {
    (r.ps()?, r.ps()?);
    r.many(|r| {
        (r.p()?, r.p()?, r.ss()?, r.s()?, r.s()?);
        Ok(())
    })?;
    Ok(())
}
fn skip_r1cs(r: &mut Rd) -> V<()> {
    r.ps()?;
    skip_sumcheck(r)?;
    // four claims, knowledge proof, product proof, equality proof
    for _ in 0..4 {
        r.p()?;
    }
    (r.p()?, r.s()?, r.s()?);
    (r.p()?, r.p()?, r.p()?);
    for _ in 0..5 {
        r.s()?;
    }
    (r.p()?, r.s()?);
    skip_sumcheck(r)?;
    r.p()?;
    skip_opening(r)?;
    (r.p()?, r.s()?);
    Ok(())
}
