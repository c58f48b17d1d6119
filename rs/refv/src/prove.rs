//! The provers that go with the verifier: an honest one, and dishonest ones that carry a false claim
//! through the protocol, every message consistent with it, up to one chosen equation.
use crate::*;

/// Bytes of a proof.
#[derive(Default)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    fn n(&mut self, n: usize) {
        self.0.extend((n as u64).to_le_bytes())
    }
    fn s(&mut self, v: &U) {
        self.n(32);
        self.0.extend(to_le(v))
    }
    fn p(&mut self, p: &Pt) {
        let b = SECQ.compress(p);
        self.n(b.len());
        self.0.extend(b)
    }
    fn ss(&mut self, v: &[U]) {
        self.n(v.len());
        v.iter().for_each(|x| self.s(x))
    }
    fn ps(&mut self, v: &[Pt]) {
        self.n(v.len());
        v.iter().for_each(|x| self.p(x))
    }
}
pub struct Rng(pub u64);
impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn s(&mut self) -> U {
        FP.red(&[self.u64(), self.u64(), self.u64(), self.u64()])
    }
    fn ss(&mut self, n: usize) -> Vec<U> {
        (0..n).map(|_| self.s()).collect()
    }
}
/// The equation at which the truth is told again.  The statement is false for all but `Honest`.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Stop {
    Honest,
    /// a round of the first sum-check
    Phase1(usize),
    /// the equality proof that ends it
    Eq1,
    /// the product of the claims
    Product,
    Phase2(usize),
    Eq2,
    /// the opening of the witness
    Open,
    /// the matrices' values are not the sums of their halves
    Halves,
    /// the last layer's sum-check
    DotLayer,
    /// the values the inner products come down to
    DotFinal,
    /// the opening of the matrices' entries
    Val,
    /// the opening of the values read
    Deref,
    /// the opening of the addresses, or (true) of the timestamps of the reads
    Addr(bool),
    /// what was read from memory is not what was in it
    Sets,
    /// the product of one of the four sets (init, read, write, audit), in a layer or (None) at its end
    Set(u8, Option<usize>),
    /// the opening of the final timestamps
    Audit,
    /// the point at which the verifier is told to evaluate the instance: a coordinate of the first, or (true) the second half
    Point(bool, usize),
}
impl Stop {
    /// What the verifier says of it.
    pub fn equation(&self) -> String {
        match self {
            Stop::Honest => "".into(),
            Stop::Phase1(_) | Stop::Phase2(_) => "dot product proof: value".into(),
            Stop::Eq1 | Stop::Eq2 => "equality proof".into(),
            Stop::Product => "product proof: Z".into(),
            Stop::Open | Stop::Val | Stop::Deref | Stop::Addr(_) | Stop::Audit => "log dot product".into(),
            Stop::Point(..) => "the claimed point".into(),
            Stop::Halves => "is not the sum of its halves".into(),
            Stop::DotLayer | Stop::Set(_, Some(_)) => "product circuits: layer".into(),
            Stop::DotFinal => "hash layer: evaluation".into(),
            Stop::Sets => "memory check: the sets differ".into(),
            Stop::Set(0, None) => "hash layer: initial memory".into(),
            Stop::Set(1, None) => "hash layer: reads".into(),
            Stop::Set(2, None) => "hash layer: writes".into(),
            Stop::Set(_, None) => "hash layer: final memory".into(),
        }
    }
    fn sparse(&self) -> bool {
        !matches!(self, Stop::Honest | Stop::Phase1(_) | Stop::Eq1 | Stop::Product | Stop::Phase2(_) | Stop::Eq2 | Stop::Open | Stop::Point(..))
    }
}

pub fn knowledge(t: &mut T, g: &G, x: &U, bx: &U, rng: &mut Rng, w: &mut Wr) {
    let (a, b) = (rng.s(), rng.s());
    t.name(b"knowledge proof");
    t.p(b"C", &com(&[*x], bx, g));
    let alpha = com(&[a], &b, g);
    t.p(b"alpha", &alpha);
    let c = t.ch(b"c");
    w.p(&alpha);
    w.s(&add(&mul(x, &c), &a));
    w.s(&add(&mul(bx, &c), &b));
}
pub fn equality(t: &mut T, g: &G, C1: &Pt, C2: &Pt, blinds: &U, rng: &mut Rng, w: &mut Wr) {
    let r = rng.s();
    let alpha = lin(&[(r, g.h)]);
    t.name(b"equality proof");
    t.p(b"C1", C1);
    t.p(b"C2", C2);
    t.p(b"alpha", &alpha);
    let c = t.ch(b"c");
    w.p(&alpha);
    w.s(&add(&mul(&c, blinds), &r));
}
pub fn product(t: &mut T, g: &G, v: &[(U, U); 3], rng: &mut Rng, w: &mut Wr) {
    let b = rng.ss(5);
    t.name(b"product proof");
    let c: Vec<Pt> = v.iter().map(|(x, r)| com(&[*x], r, g)).collect();
    let (alpha, beta) = (com(&[b[0]], &b[1], g), com(&[b[2]], &b[3], g));
    let delta = lin(&[(b[2], c[0]), (b[4], g.h)]);
    for (l, p) in [(b"X" as L, &c[0]), (b"Y", &c[1]), (b"Z", &c[2]), (b"alpha", &alpha), (b"beta", &beta), (b"delta", &delta)] {
        t.p(l, p)
    }
    let ch = t.ch(b"c");
    for p in [alpha, beta, delta] {
        w.p(&p)
    }
    let last = sub(&v[2].1, &mul(&v[0].1, &v[1].0));
    for (x, r) in [v[0].0, v[0].1, v[1].0, v[1].1, last].iter().zip(&b) {
        w.s(&add(r, &mul(&ch, x)))
    }
}
pub fn dotproduct(t: &mut T, g1: &G, gn: &G, a: &[U], x: &[U], bx: &U, Cx: &Pt, Cy: &Pt, by: &U, rng: &mut Rng, w: &mut Wr) {
    let (d, rd, rb) = (rng.ss(x.len()), rng.s(), rng.s());
    t.name(b"dot product proof");
    t.p(b"Cx", Cx);
    t.p(b"Cy", Cy);
    t.ss(b"a", a);
    let (delta, beta) = (com(&d, &rd, gn), com(&[dot(a, &d)], &rb, g1));
    t.p(b"delta", &delta);
    t.p(b"beta", &beta);
    let c = t.ch(b"c");
    w.p(&delta);
    w.p(&beta);
    w.ss(&x.iter().zip(&d).map(|(x, d)| add(&mul(&c, x), d)).collect::<Vec<_>>());
    w.s(&add(&mul(&c, bx), &rd));
    w.s(&add(&mul(&c, by), &rb));
}
pub fn dotlog(t: &mut T, (gn, g1): &(G, G), a: &[U], x: &[U], bx: &U, y: &U, by: &U, rng: &mut Rng, w: &mut Wr) {
    t.name(b"dot product proof (log)");
    t.p(b"Cx", &com(x, bx, gn));
    t.p(b"Cy", &com(&[*y], by, g1));
    t.ss(b"a", a);
    let r = t.ch(b"r");
    let Q = lin(&[(r, g1.g[0])]);
    let (mut x, mut a, mut g, mut blind) = (x.to_vec(), a.to_vec(), gn.g.clone(), add(bx, &mul(&r, by)));
    let (mut Ls, mut Rs) = (vec![], vec![]);
    while x.len() > 1 {
        let h = x.len() / 2;
        let (bl, br) = (rng.s(), rng.s());
        let side = |x: &[U], g: &[Pt], a: &[U], b: &U| {
            let mut v: Vec<(U, Pt)> = x.iter().cloned().zip(g.iter().cloned()).collect();
            v.extend([(dot(x, a), Q), (*b, gn.h)]);
            lin(&v)
        };
        let (l, rr) = (side(&x[..h], &g[h..], &a[h..], &bl), side(&x[h..], &g[..h], &a[..h], &br));
        t.p(b"L", &l);
        t.p(b"R", &rr);
        let c = t.ch(b"u");
        let i = FP.inv(&c);
        x = (0..h).map(|k| add(&mul(&x[k], &c), &mul(&x[h + k], &i))).collect();
        a = (0..h).map(|k| add(&mul(&a[k], &i), &mul(&a[h + k], &c))).collect();
        g = (0..h).map(|k| lin(&[(i, g[k]), (c, g[h + k])])).collect();
        blind = add(&blind, &add(&mul(&FP.sq(&c), &bl), &mul(&FP.sq(&i), &br)));
        Ls.push(l);
        Rs.push(rr);
    }
    let (d, rd, rb) = (rng.s(), rng.s(), rng.s());
    let (delta, beta) = (lin(&[(d, g[0]), (rd, gn.h)]), lin(&[(d, Q), (rb, gn.h)]));
    t.p(b"delta", &delta);
    t.p(b"beta", &beta);
    let c = t.ch(b"c");
    w.ps(&Ls);
    w.ps(&Rs);
    w.p(&delta);
    w.p(&beta);
    w.s(&add(&d, &mul(&c, &mul(&x[0], &a[0]))));
    w.s(&add(&mul(&a[0], &add(&mul(&c, &blind), &rb)), &rd));
}
pub fn opening(t: &mut T, g: &(G, G), r: &[U], z: &[U], blinds: &[U], v: &U, bv: &U, rng: &mut Rng, w: &mut Wr) {
    t.name(b"polynomial evaluation proof");
    let (a, b) = r.split_at(r.len() / 2);
    let (a, b) = (eqs(a), eqs(b));
    let n = b.len();
    let x: Vec<U> = (0..n).map(|j| dot(&a, &(0..a.len()).map(|i| z[i * n + j]).collect::<Vec<_>>())).collect();
    dotlog(t, g, &b, &x, &dot(&a, blinds), v, bv, rng, w)
}
/// Coefficients of the polynomial with these values at 0, 1, 2 (, 3).
fn interpolate(v: &[U]) -> Vec<U> {
    let n = v.len();
    let mut out = vec![u(0); n];
    for i in 0..n {
        let (mut num, mut den) = (vec![u(1)], u(1));
        for j in 0..n {
            if j != i {
                let mut m = vec![u(0); num.len() + 1];
                for (k, c) in num.iter().enumerate() {
                    m[k + 1] = add(&m[k + 1], c);
                    m[k] = sub(&m[k], &mul(c, &u(j as u64)));
                }
                num = m;
                den = mul(&den, &sub(&u(i as u64), &u(j as u64)));
            }
        }
        let k = mul(&v[i], &FP.inv(&den));
        for (o, c) in out.iter_mut().zip(&num) {
            *o = add(o, &mul(c, &k))
        }
    }
    out
}
fn horner(c: &[U], x: &U) -> U {
    c.iter().rev().fold(u(0), |a, v| add(&mul(&a, x), v))
}
/// The tables' values on the line through the top variable.
fn at(t: &[U], i: usize, x: &U) -> U {
    let h = t.len() / 2;
    add(&t[i], &mul(x, &sub(&t[h + i], &t[i])))
}
fn fold(t: &mut Vec<U>, x: &U) {
    *t = (0..t.len() / 2).map(|i| at(t, i, x)).collect()
}
fn round(tabs: &[Vec<U>], deg: usize, comb: &dyn Fn(&[U]) -> U) -> Vec<U> {
    let h = tabs[0].len() / 2;
    interpolate(&(0..=deg).map(|x| (0..h).fold(u(0), |s, i| add(&s, &comb(&tabs.iter().map(|t| at(t, i, &u(x as u64))).collect::<Vec<_>>())))).collect::<Vec<_>>())
}
/// (last claim, its blind, point); the claim stays false, if it is, up to round `stop`.
pub fn zk_sumcheck(t: &mut T, tabs: &mut [Vec<U>], deg: usize, comb: &dyn Fn(&[U]) -> U, claim: &U, blind: &U, stop: Option<usize>, g1: &G, gn: &G, rng: &mut Rng, w: &mut Wr) -> (U, U, Vec<U>) {
    let rounds = log2(tabs[0].len());
    let (mut e, mut be, mut cur) = (*claim, *blind, com(&[*claim], blind, g1));
    let (mut polys, mut evals, mut pf, mut rs) = (vec![], vec![], Wr::default(), vec![]);
    for i in 0..rounds {
        let mut c = round(tabs, deg, comb);
        let sum = add(&c[0], &c.iter().fold(u(0), |s, v| add(&s, v)));
        if stop.map(|k| i < k).unwrap_or(true) {
            // a claim that is not the sum is made one
            c[1] = add(&c[1], &sub(&e, &sum));
        }
        let bp = rng.s();
        let cp = com(&c, &bp, gn);
        t.p(b"comm_poly", &cp);
        let x = t.ch(b"challenge_nextround");
        let (v, bv) = (horner(&c, &x), rng.s());
        let cv = com(&[v], &bv, g1);
        t.p(b"comm_claim_per_round", &cur);
        t.p(b"comm_eval", &cv);
        let k = t.chs(b"combine_two_claims_to_one", 2);
        let target = lin(&[(k[0], cur), (k[1], cv)]);
        let mut pw = u(1);
        let mut a = vec![];
        for j in 0..=deg {
            a.push(add(&mul(&k[0], &if j == 0 { u(2) } else { u(1) }), &mul(&k[1], &pw)));
            pw = mul(&pw, &x);
        }
        dotproduct(t, g1, gn, &a, &c, &bp, &cp, &target, &add(&mul(&k[0], &be), &mul(&k[1], &bv)), rng, &mut pf);
        polys.push(cp);
        evals.push(cv);
        for z in tabs.iter_mut() {
            fold(z, &x)
        }
        rs.push(x);
        (e, be, cur) = (v, bv, cv);
    }
    w.ps(&polys);
    w.ps(&evals);
    w.n(rounds);
    w.0.extend(pf.0);
    (e, be, rs)
}
/// What the satisfiability proof leaves to be confirmed.
struct Sat {
    rx: Vec<U>,
    ry: Vec<U>,
    /// the point told to a verifier that has the instance
    shown: (Vec<U>, Vec<U>),
    evals: [U; 3],
}
fn r1cs(t: &mut T, i: &Inst, vars: &[U], input: &[U], stop: Stop, rng: &mut Rng, w: &mut Wr) -> Option<Sat> {
    let lb = b"gens_r1cs_sat";
    let pc = poly_gens(lb, log2(i.vars));
    let g1 = pc.1.clone();
    t.name(b"R1CS proof");
    t.ss(b"input", input);
    let mut z = vars.to_vec();
    z.resize(i.vars, u(0));
    let wid = pc.0.g.len();
    let blinds = rng.ss(i.vars / wid);
    let rows: Vec<Pt> = z.chunks(wid).zip(&blinds).map(|(c, b)| com(c, b, &pc.0)).collect();
    t.rows(b"poly_commitment", &rows);
    w.ps(&rows);
    let wit = z.clone();
    z.push(u(1));
    z.extend(input);
    z.resize(2 * i.vars, u(0));
    let tau = t.chs(b"challenge_tau", log2(i.cons));
    let mv = |k: usize| {
        let mut o = vec![u(0); i.cons];
        for (r, c, v) in &i.m[k] {
            o[*r] = add(&o[*r], &mul(v, &z[*c]))
        }
        o
    };
    let mut tabs = [eqs(&tau), mv(0), mv(1), mv(2)];
    let comb = |v: &[U]| mul(&v[0], &sub(&mul(&v[1], &v[2]), &v[3]));
    let s1 = if let Stop::Phase1(k) = stop { Some(k) } else { None };
    let (e, be, rx) = zk_sumcheck(t, &mut tabs, 3, &comb, &u(0), &u(0), s1, &g1, &gens(lb, 4), rng, w);
    let [q, a, b, mut c] = [0, 1, 2, 3].map(|k| tabs[k][0]);
    let mut ab = mul(&a, &b);
    let gap = sub(&mul(&e, &FP.inv(&q)), &sub(&ab, &c));
    match stop {
        Stop::Honest | Stop::Phase1(_) | Stop::Eq1 => {}
        Stop::Product => ab = add(&ab, &gap),
        _ => c = sub(&c, &gap),
    }
    let (ra, rb, rc, rab) = (rng.s(), rng.s(), rng.s(), rng.s());
    let cs: Vec<Pt> = [(a, ra), (b, rb), (c, rc), (ab, rab)].iter().map(|(v, r)| com(&[*v], r, &g1)).collect();
    cs.iter().for_each(|p| w.p(p));
    knowledge(t, &g1, &c, &rc, rng, w);
    product(t, &g1, &[(a, ra), (b, rb), (ab, rab)], rng, w);
    for (l, p) in [b"comm_Az_claim" as L, b"comm_Bz_claim", b"comm_Cz_claim", b"comm_prod_Az_Bz_claims"].into_iter().zip(&cs) {
        t.p(l, p)
    }
    let expect = lin(&[(q, cs[3]), (q, SECQ.neg(&cs[2]))]);
    equality(t, &g1, &expect, &com(&[e], &be, &g1), &sub(&mul(&q, &sub(&rab, &rc)), &be), rng, w);
    let k = [t.ch(b"challenege_Az"), t.ch(b"challenege_Bz"), t.ch(b"challenege_Cz")];
    let (claim, bc) = (dot(&k, &[a, b, c]), dot(&k, &[ra, rb, rc]));
    let ex = eqs(&rx);
    let mut abc = vec![u(0); 2 * i.vars];
    for m in 0..3 {
        for (r, c, v) in &i.m[m] {
            abc[*c] = add(&abc[*c], &prod([&k[m], &ex[*r], v]))
        }
    }
    let mut tabs = [z, abc];
    let s2 = if let Stop::Phase2(k) = stop { Some(k) } else { None };
    let (e, be, ry) = zk_sumcheck(t, &mut tabs, 2, &|v| mul(&v[0], &v[1]), &claim, &bc, s2, &g1, &gens(lb, 3), rng, w);
    let mut evals = i.evals(&rx, &ry);
    let mut shown = (rx.clone(), ry.clone());
    let eq = eqs(&ry[1..]);
    let pe = input.iter().enumerate().fold(eq[0], |s, (i, v)| add(&s, &mul(&eq[i + 1], v)));
    let mut at_ry = dot(&wit, &eq);
    let n0 = sub(&u(1), &ry[0]);
    let zv = |v: &U| add(&mul(&n0, v), &mul(&ry[0], &pe));
    let kk = dot(&k, &evals);
    if e != mul(&kk, &zv(&at_ry)) {
        if stop == Stop::Open {
            if is_zero(&kk) {
                return None;
            }
            at_ry = mul(&sub(&mul(&e, &FP.inv(&kk)), &mul(&ry[0], &pe)), &FP.inv(&n0));
        } else if let Stop::Point(y, j) = stop {
            // the instance's values are linear in each coordinate
            let n = if y { shown.1.len() } else { shown.0.len() };
            let mut moved = |v: U| {
                if y {
                    shown.1[j % n] = v
                } else {
                    shown.0[j % n] = v
                }
                i.evals(&shown.0, &shown.1)
            };
            let (k0, k1) = (dot(&k, &moved(u(0))), dot(&k, &moved(u(1))));
            let want = mul(&e, &FP.inv(&nz(zv(&at_ry))?));
            evals = moved(mul(&sub(&want, &k0), &FP.inv(&nz(sub(&k1, &k0))?)));
        } else if stop.sparse() {
            let z = zv(&at_ry);
            if is_zero(&z) {
                return None;
            }
            // one matrix's value is off by what is missing; one with entries
            let r = rng.u64() as usize;
            let m = (0..3).map(|m| (m + r) % 3).find(|m| i.m[*m].iter().any(|e| !is_zero(&e.2)))?;
            evals[m] = add(&evals[m], &mul(&sub(&mul(&e, &FP.inv(&z)), &kk), &FP.inv(&k[m])));
        }
    }
    let bz = rng.s();
    let cz = com(&[at_ry], &bz, &g1);
    w.p(&cz);
    opening(t, &pc, &ry[1..], &wit, &blinds, &at_ry, &bz, rng, w);
    let kk = dot(&k, &evals);
    let fin = lin(&[(mul(&kk, &n0), cz), (mul(&kk, &mul(&ry[0], &pe)), g1.g[0])]);
    equality(t, &g1, &fin, &com(&[e], &be, &g1), &sub(&prod([&kk, &n0, &bz]), &be), rng, w);
    Some(Sat { rx, ry, shown, evals })
}
/// None when the lie has nowhere to go (a factor that is zero).
pub fn nizk(i: &Inst, digest: &[u8], vars: &[U], input: &[U], label: L, stop: Stop, rng: &mut Rng) -> Option<Vec<u8>> {
    let t = &mut T::new(label);
    let mut w = Wr::default();
    t.name(b"Spartan NIZK proof");
    t.msg(b"R1CSInstanceDigest", digest);
    let s = r1cs(t, i, vars, input, stop, rng, &mut w)?;
    w.ss(&s.shown.0);
    w.ss(&s.shown.1);
    Some(w.0)
}
pub fn snark(i: &Inst, cm: &SparseCom, vars: &[U], input: &[U], nnz: usize, label: L, stop: Stop, rng: &mut Rng) -> Option<Vec<u8>> {
    let t = &mut T::new(label);
    let mut w = Wr::default();
    t.name(b"Spartan SNARK proof");
    t.n(b"num_cons", i.cons);
    t.n(b"num_vars", i.vars);
    t.n(b"num_inputs", i.inputs);
    cm.absorb(t);
    let s = r1cs(t, i, vars, input, stop, rng, &mut w)?;
    s.evals.iter().for_each(|e| w.s(e));
    t.s(b"Ar_claim", &s.evals[0]);
    t.s(b"Br_claim", &s.evals[1]);
    t.s(b"Cr_claim", &s.evals[2]);
    sparse(t, cm, &i.m, &s.rx, &s.ry, &s.evals, &i.sparse_gens(nnz), stop, rng, &mut w)?;
    Some(w.0)
}
/// Layers of a product circuit, the last holding the values' halves.
fn layers(v: &[U]) -> Vec<Vec<U>> {
    let mut l = vec![v.to_vec()];
    while l[0].len() > 2 {
        let h = l[0].len() / 2;
        let n = (0..h).map(|i| mul(&l[0][i], &l[0][h + i])).collect();
        l.insert(0, n);
    }
    l
}
/// Where in the last layer what is missing goes: the factor of an inner product, and products whose values move along
/// with it (how much faster).
#[derive(Default)]
pub struct Into {
    pub factor: usize,
    pub with: Vec<(usize, U)>,
}
/// `claims` may be false; from layer `stop` on the truth is told.
pub fn batched(t: &mut T, tables: &[Vec<U>], claims: &[U], dots: &[[Vec<U>; 3]], dclaims: &[U], stop: Option<usize>, dstop: bool, into: &Into, w: &mut Wr) -> Option<(Vec<U>, Vec<U>, Vec<U>)> {
    let ls: Vec<Vec<Vec<U>>> = tables.iter().map(|v| layers(v)).collect();
    let (n, k) = (ls[0].len(), tables.len());
    let (mut claims, mut rand): (Vec<U>, Vec<U>) = (claims.to_vec(), vec![]);
    w.n(n);
    let mut dd = [vec![], vec![], vec![]];
    let mut out = vec![];
    for i in 0..n {
        let last = i == n - 1;
        let half = |v: &Vec<U>, r: bool| if r { v[v.len() / 2..].to_vec() } else { v[..v.len() / 2].to_vec() };
        let mut tabs: Vec<Vec<U>> = vec![eqs(&rand)];
        for l in &ls {
            tabs.push(half(&l[i], false));
            tabs.push(half(&l[i], true));
        }
        let mut nd = 0;
        if last {
            claims.extend(dclaims);
            nd = dots.len();
            for d in dots {
                tabs.extend(d.iter().cloned())
            }
        }
        let co = t.chs(b"rand_coeffs_next_layer", claims.len());
        let mut e = dot(&claims, &co);
        let comb = |v: &[U]| {
            let s = (0..k).fold(u(0), |s, j| add(&s, &prod([&co[j], &v[0], &v[1 + 2 * j], &v[2 + 2 * j]])));
            (0..nd).fold(s, |s, j| {
                let b = 1 + 2 * k + 3 * j;
                add(&s, &prod([&co[k + j], &v[b], &v[b + 1], &v[b + 2]]))
            })
        };
        let mut rp = vec![];
        w.n(i);
        for _ in 0..i {
            let mut c = round(&tabs, 3, &comb);
            let sum = add(&c[0], &c.iter().fold(u(0), |s, v| add(&s, v)));
            c[1] = add(&c[1], &sub(&e, &sum));
            t.msg(b"poly", b"UniPoly_begin");
            c.iter().for_each(|v| t.s(b"coeff", v));
            t.msg(b"poly", b"UniPoly_end");
            w.ss(&[c[0], c[2], c[3]]);
            let x = t.ch(b"challenge_nextround");
            e = horner(&c, &x);
            for z in tabs.iter_mut() {
                fold(z, &x)
            }
            rp.push(x);
        }
        let mut fin: Vec<U> = tabs.iter().map(|z| z[0]).collect();
        let gap = sub(&e, &comb(&fin));
        if !is_zero(&gap) {
            if last && nd > 0 && dclaims_false(dots, dclaims) {
                if !dstop {
                    // into a factor of the inner product that is off
                    let j = (0..nd).find(|j| dclaims[*j] != inner(&dots[*j]))?;
                    let (b, f) = (1 + 2 * k + 3 * j, into.factor);
                    let mut go = vec![(b + f, prod([&co[k + j], &fin[b + (f + 1) % 3], &fin[b + (f + 2) % 3]]), u(1))];
                    for (p, fast) in &into.with {
                        // in the same half of its product
                        let (here, there) = if j % 2 == 0 { (1 + 2 * p, 2 + 2 * p) } else { (2 + 2 * p, 1 + 2 * p) };
                        go.push((here, prod([&co[*p], &fin[0], &fin[there]]), *fast));
                    }
                    spread(&mut fin, &gap, &go)?;
                }
            } else if stop != Some(i) {
                // into the left factor of the product that is off
                let truth: Vec<U> = ls.iter().map(|l| mle_of_layer(&l[i], &rand)).collect();
                let off: Vec<usize> = (0..k).filter(|j| claims[*j] != truth[*j]).collect();
                let mut go = vec![*off.first()?];
                if last {
                    go.extend(into.with.iter().map(|p| p.0));
                }
                let go: Vec<(usize, U, U)> = go.into_iter().map(|j| (1 + 2 * j, prod([&co[j], &fin[0], &fin[2 + 2 * j]]), u(1))).collect();
                spread(&mut fin, &gap, &go)?;
            }
        }
        let (l, r): (Vec<U>, Vec<U>) = (0..k).map(|j| (fin[1 + 2 * j], fin[2 + 2 * j])).unzip();
        w.ss(&l);
        w.ss(&r);
        for j in 0..k {
            t.s(b"claim_prod_left", &l[j]);
            t.s(b"claim_prod_right", &r[j]);
        }
        for j in 0..nd {
            let b = 1 + 2 * k + 3 * j;
            for (m, lb) in [b"claim_dotp_left" as L, b"claim_dotp_right", b"claim_dotp_weight"].into_iter().enumerate() {
                t.s(lb, &fin[b + m]);
                dd[m].push(fin[b + m]);
            }
        }
        let x = t.ch(b"challenge_r_layer");
        let mix = |a: &U, b: &U| add(a, &mul(&x, &sub(b, a)));
        claims = (0..k).map(|j| mix(&l[j], &r[j])).collect();
        if last {
            for j in 0..nd / 2 {
                for v in &dd {
                    out.push(mix(&v[2 * j], &v[2 * j + 1]))
                }
            }
        }
        rand = [vec![x], rp].concat();
    }
    dd.iter().for_each(|v| w.ss(v));
    Some((claims, out, rand))
}
/// Moves values, each at its speed, until what they change, each by its weight, makes up the gap.
fn spread(fin: &mut [U], gap: &U, go: &[(usize, U, U)]) -> Option<()> {
    let all = go.iter().fold(u(0), |s, (_, w, v)| add(&s, &mul(w, v)));
    let d = mul(gap, &FP.inv(&nz(all)?));
    for (i, _, v) in go {
        fin[*i] = add(&fin[*i], &mul(&d, v));
    }
    Some(())
}
fn nz(x: U) -> Option<U> {
    if is_zero(&x) {
        None
    } else {
        Some(x)
    }
}
fn inner(d: &[Vec<U>; 3]) -> U {
    (0..d[0].len()).fold(u(0), |s, i| add(&s, &prod([&d[0][i], &d[1][i], &d[2][i]])))
}
fn dclaims_false(d: &[[Vec<U>; 3]], c: &[U]) -> bool {
    d.iter().zip(c).any(|(d, c)| inner(d) != *c)
}
/// What the layer above claims of a layer: the value at `rand` of the products of its halves.
fn mle_of_layer(l: &[U], rand: &[U]) -> U {
    let h = l.len() / 2;
    mle(&(0..h).map(|i| mul(&l[i], &l[h + i])).collect::<Vec<_>>(), rand)
}
pub fn sparse(t: &mut T, cm: &SparseCom, ms: &[Mat], rx: &[U], ry: &[U], evals: &[U], g: &SparseGens, stop: Stop, rng: &mut Rng, w: &mut Wr) -> Option<()> {
    let k = ms.len();
    // which memory, which of its products and which factor is lied about
    let (sd, pm, factor) = (rng.u64() as usize % 2, rng.u64() as usize % k, rng.u64() as usize % 3);
    t.name(b"Sparse polynomial evaluation proof");
    let n = rx.len().max(ry.len());
    let ext = |v: &[U]| [vec![u(0); n - v.len()], v.to_vec()].concat();
    let mem = [eqs(&ext(rx)), eqs(&ext(ry))];
    let cells = 1usize << n;
    // addresses, read timestamps, values read; final timestamps
    let (mut addr, mut ts, mut der, mut audit) = ([vec![], vec![]], [vec![], vec![]], [vec![], vec![]], [vec![], vec![]]);
    for s in 0..2 {
        let mut au = vec![0u64; cells];
        for m in ms {
            let a: Vec<usize> = (0..cm.ops).map(|i| m.get(i).map(|e| if s == 0 { e.0 } else { e.1 }).unwrap_or(0)).collect();
            ts[s].push(
                a.iter()
                    .map(|a| {
                        au[*a] += 1;
                        u(au[*a] - 1)
                    })
                    .collect::<Vec<U>>(),
            );
            der[s].push(a.iter().map(|a| mem[s][*a]).collect::<Vec<U>>());
            addr[s].push(a.iter().map(|a| u(*a as u64)).collect::<Vec<U>>());
        }
        audit[s] = au.into_iter().map(u).collect::<Vec<U>>();
    }
    let val: Vec<Vec<U>> = ms.iter().map(|m| (0..cm.ops).map(|i| m.get(i).map(|e| e.2).unwrap_or(u(0))).collect()).collect();
    let full = |d: &[Vec<Vec<U>>; 2], m: usize| inner(&[d[0][m].clone(), d[1][m].clone(), val[m].clone()]);
    // the matrix whose value is false, if one is
    let off = (0..k).find(|m| full(&der, *m) != evals[*m]);
    if matches!(stop, Stop::Sets | Stop::Set(..) | Stop::Addr(_) | Stop::Audit) {
        // the values read are made to add up to it
        let m = off?;
        let j = (0..cm.ops).find(|j| !is_zero(&mul(&der[1 - sd][m][*j], &val[m][*j])))?;
        let gap = sub(&evals[m], &full(&der, m));
        der[sd][m][j] = add(&der[sd][m][j], &mul(&gap, &FP.inv(&mul(&der[1 - sd][m][j], &val[m][j]))));
    }
    let comb: Vec<U> = der.iter().flatten().flatten().cloned().collect();
    let rows = commit(comb.clone(), &g.derefs.0);
    t.msg(b"derefs_commitment", b"begin_derefs_commitment");
    t.rows(b"comm_poly_row_col_ops_val", &rows);
    t.msg(b"derefs_commitment", b"end_derefs_commitment");
    w.ps(&rows);
    let h = t.chs(b"challenge_r_hash", 2);
    t.name(b"Sparse polynomial evaluation proof");
    t.name(b"Sparse polynomial product layer proof");
    let hash = |a: &U, v: &U, ts: &U| sub(&add(&add(&mul(ts, &FP.sq(&h[0])), &mul(v, &h[0])), a), &h[1]);
    let mut tabs_ops: Vec<Vec<U>> = vec![];
    let mut tabs_mem: Vec<Vec<U>> = vec![];
    let (mut claims_ops, mut claims_mem) = (vec![], vec![]);
    let names = [[b"claim_row_eval_init" as L, b"claim_row_eval_read", b"claim_row_eval_write", b"claim_row_eval_audit"], [b"claim_col_eval_init", b"claim_col_eval_read", b"claim_col_eval_write", b"claim_col_eval_audit"]];
    for s in 0..2 {
        let ids: Vec<U> = (0..cells).map(|i| u(i as u64)).collect();
        let init: Vec<U> = (0..cells).map(|i| hash(&ids[i], &mem[s][i], &u(0))).collect();
        let aud: Vec<U> = (0..cells).map(|i| hash(&ids[i], &mem[s][i], &audit[s][i])).collect();
        let rw = |more: u64| -> Vec<Vec<U>> { (0..k).map(|m| (0..cm.ops).map(|j| hash(&addr[s][m][j], &der[s][m][j], &add(&ts[s][m][j], &u(more)))).collect()).collect() };
        let (read, write) = (rw(0), rw(1));
        let p = |v: &Vec<Vec<U>>| v.iter().map(prod).collect::<Vec<U>>();
        let mut c = (prod(&init), p(&read), p(&write), prod(&aud));
        if s == sd && off.is_some() {
            let which = match stop {
                Stop::Set(x, _) => Some(x),
                Stop::Addr(_) => Some(1),
                Stop::Audit => Some(3),
                _ => None,
            };
            // init * writes = reads * audit, by changing one of them
            let (l, r) = (mul(&c.0, &prod(&c.2)), mul(&prod(&c.1), &c.3));
            let (up, down) = (mul(&l, &FP.inv(&nz(r)?)), mul(&r, &FP.inv(&nz(l)?)));
            match which {
                Some(0) => c.0 = mul(&c.0, &down),
                Some(1) => c.1[pm] = mul(&c.1[pm], &up),
                Some(2) => c.2[pm] = mul(&c.2[pm], &down),
                Some(_) => c.3 = mul(&c.3, &up),
                None => {}
            }
        }
        t.s(names[s][0], &c.0);
        t.ss(names[s][1], &c.1);
        t.ss(names[s][2], &c.2);
        t.s(names[s][3], &c.3);
        w.s(&c.0);
        w.ss(&c.1);
        w.ss(&c.2);
        w.s(&c.3);
        claims_ops.extend(c.1.iter().chain(&c.2));
        claims_mem.extend([c.0, c.3]);
        tabs_ops.extend(read.into_iter().chain(write));
        tabs_mem.extend([init, aud]);
    }
    let half = cm.ops / 2;
    let mut dots: Vec<[Vec<U>; 3]> = vec![];
    let (mut dl, mut dr) = (vec![], vec![]);
    for m in 0..k {
        let part = |r: std::ops::Range<usize>| [der[0][m][r.clone()].to_vec(), der[1][m][r.clone()].to_vec(), val[m][r].to_vec()];
        let (a, b) = (part(0..half), part(half..cm.ops));
        let (mut x, mut y) = (inner(&a), inner(&b));
        if stop != Stop::Halves && off == Some(m) {
            // a lie goes into the half with factors
            let gap = sub(&evals[m], &add(&x, &y));
            let used = a.iter().fold(vec![u(1); half], |s, v| s.iter().zip(v).map(|(x, y)| mul(x, y)).collect()).iter().any(|v| !is_zero(v));
            if used { x = add(&x, &gap) } else { y = add(&y, &gap) }
        }
        dl.push(x);
        dr.push(y);
        dots.extend([a, b]);
    }
    let mut dc = vec![];
    for m in 0..k {
        t.s(b"claim_eval_dotp_left", &dl[m]);
        t.s(b"claim_eval_dotp_right", &dr[m]);
        dc.extend([dl[m], dr[m]]);
    }
    w.ss(&dl);
    w.ss(&dr);
    let (mut wo, mut wm) = (Wr::default(), Wr::default());
    let ops_stop = if let Stop::Set(1 | 2, Some(i)) = stop { Some(i) } else { None };
    let mem_stop = if let Stop::Set(0 | 3, Some(i)) = stop { Some(i) } else { None };
    let reads = |m: usize| 2 * sd * k + m;
    let into = match stop {
        Stop::Val => Into { factor: 2, with: vec![] },
        Stop::Deref => Into { factor: sd, with: off.iter().flat_map(|m| [(reads(*m), h[0]), (reads(*m) + k, h[0])]).collect() },
        Stop::Addr(_) => Into { factor, with: vec![(reads(pm) + k, u(1))] },
        _ => Into { factor, with: vec![] },
    };
    let (fin_ops, fin_dots, rand_ops) = batched(t, &tabs_ops, &claims_ops, &dots, &dc, ops_stop, stop == Stop::DotLayer, &into, &mut wo)?;
    let (fin_mem, _, rand_mem) = batched(t, &tabs_mem, &claims_mem, &[], &[], mem_stop, false, &Into::default(), &mut wm)?;
    w.0.extend(wm.0);
    w.0.extend(wo.0);
    t.name(b"Sparse polynomial hash layer proof");
    let o = |v: &Vec<U>| mle(v, &rand_ops);
    let mut sides: Vec<(Vec<U>, Vec<U>)> = (0..2).map(|s| (addr[s].iter().map(o).collect(), ts[s].iter().map(o).collect())).collect();
    let mut aud: Vec<U> = (0..2).map(|s| mle(&audit[s], &rand_mem)).collect();
    if stop == Stop::Audit {
        let id = rand_mem.iter().fold(u(0), |s, x| add(&add(&s, &s), x));
        let have = hash(&id, &mle(&mem[sd], &rand_mem), &aud[sd]);
        aud[sd] = add(&aud[sd], &mul(&sub(&fin_mem[2 * sd + 1], &have), &FP.inv(&FP.sq(&h[0]))));
    }
    let mut vals: Vec<U> = val.iter().map(o).collect();
    if stop == Stop::Val {
        let m = off?;
        vals[m] = fin_dots[3 * m + 2];
    }
    let mut ders: Vec<Vec<U>> = der.iter().map(|d| d.iter().map(o).collect()).collect();
    if stop == Stop::Deref {
        let m = off?;
        ders[sd][m] = fin_dots[3 * m + sd];
    }
    if let Stop::Addr(time) = stop {
        let (a, ts) = &mut sides[sd];
        let gap = sub(&fin_ops[reads(pm)], &hash(&a[pm], &ders[sd][pm], &ts[pm]));
        if time {
            ts[pm] = add(&ts[pm], &mul(&gap, &FP.inv(&FP.sq(&h[0]))));
        } else {
            a[pm] = add(&a[pm], &gap);
        }
    }
    for s in 0..2 {
        w.ss(&sides[s].0);
        w.ss(&sides[s].1);
        w.s(&aud[s]);
    }
    w.ss(&vals);
    w.ss(&ders[0]);
    w.ss(&ders[1]);
    t.name(b"Derefs evaluation proof");
    let mut wd = Wr::default();
    joint(t, b"evals_ops_val", b"challenge_combine_n_to_one", b"joint_claim_eval", ders.concat(), &rand_ops, &g.derefs, comb, rng, &mut wd);
    let all = [sides[0].0.clone(), sides[0].1.clone(), sides[1].0.clone(), sides[1].1.clone(), vals].concat();
    let table: Vec<U> = [addr[0].concat(), ts[0].concat(), addr[1].concat(), ts[1].concat(), val.concat()].concat();
    joint(t, b"claim_evals_ops", b"challenge_combine_n_to_one", b"joint_claim_eval_ops", all, &rand_ops, &g.ops, table, rng, w);
    joint(t, b"claim_evals_mem", b"challenge_combine_two_to_one", b"joint_claim_eval_mem", aud, &rand_mem, &g.mem, audit.concat(), rng, w);
    w.0.extend(wd.0);
    Some(())
}
fn joint(t: &mut T, l: L, lc: L, lj: L, mut evals: Vec<U>, r: &[U], g: &(G, G), mut table: Vec<U>, rng: &mut Rng, w: &mut Wr) {
    evals.resize(evals.len().next_power_of_two(), u(0));
    table.resize(table.len().next_power_of_two(), u(0));
    t.ss(l, &evals);
    let c = t.chs(lc, log2(evals.len()));
    let v = mle(&evals, &c);
    t.s(lj, &v);
    let p = [c, r.to_vec()].concat();
    let blinds = vec![u(0); 1 << (p.len() / 2)];
    opening(t, g, &p, &table, &blinds, &v, &u(0), rng, w)
}
