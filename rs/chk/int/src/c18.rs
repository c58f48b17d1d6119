//! C18: the building-block arguments and the commitments.
include!("common.rs");
#[path = "../../spartan/src/tree.rs"]
mod tree;
use merlin::Transcript;
use proptest::collection::vec;
use refm::ec::{Pt, SECQ};
use refv::prove::{self, Rng, Stop, Wr};
use refv::Rd;
use spartan_int::commitments::*;
use spartan_int::dense_mlpoly::*;
use spartan_int::group::{CompressedGroup, GroupElement};
use spartan_int::nizk::*;
use spartan_int::product_tree::*;
use spartan_int::random::RandomTape;
use spartan_int::sparse_mlpoly::*;
use spartan_int::sumcheck::*;
use tree::{edit, Edit, Kind};
use vk::serde_json::{json, Value};
use vk::*;

pub fn val() -> impl Strategy<Value = B32> + Clone {
    fe()
}
const LB: &[u8] = b"example";
fn tr() -> Transcript {
    Transcript::new(LB)
}
fn tape() -> RandomTape {
    RandomTape::new(b"proof")
}
fn j<T: serde::Serialize>(x: &T) -> Value {
    vk::serde_json::to_value(x).unwrap()
}
fn dec<T: serde::de::DeserializeOwned>(v: &Value) -> Option<T> {
    no_panic(|| vk::serde_json::from_value::<T>(v.clone()).ok()).ok().flatten()
}
/// A claim with a proof of it; `ok` verifies any claim with any proof.
struct Run {
    claim: Value,
    proof: Value,
    pool: Value,
    ok: Box<dyn Fn(&Value, &Value, &'static [u8]) -> Result<bool, String>>,
    /// what the reference verifier (rs/refv) says of the proof
    rf: Box<dyn Fn(&Value, &Value) -> R>,
}
impl Run {
    /// accepted: an error, an abort and a value that does not decode are refusals
    fn acc(&self, c: &Value, p: &Value, l: &'static [u8]) -> bool {
        matches!(no_panic(|| (self.ok)(c, p, l)), Ok(Ok(true)))
    }
    fn honest(&self, what: &str) -> R {
        match no_panic(|| (self.ok)(&self.claim, &self.proof, LB)) {
            Ok(Ok(true)) => (self.rf)(&self.claim, &self.proof).map_err(|e| format!("{}: accepted, but the reference verifier refuses it: {}", what, e)),
            x => Err(format!("{}: the honest proof is refused: {:?}", what, x)),
        }
    }
    /// The proof of the claim as it stands, wanted refused (a false claim proven by the prover's own code).
    fn refused(&self, what: &str) -> R {
        ensure!(!self.acc(&self.claim, &self.proof, LB), "{}: accepted", what);
        Ok(())
    }
    /// The same proof in another transcript; not for claims so degenerate that no challenge matters.
    fn bound(&self, what: &str) -> R {
        ensure!(!self.acc(&self.claim, &self.proof, b"other"), "{}: accepted in another transcript", what);
        Ok(())
    }
    fn attack(&self, at: &At, o: &mut Obs, what: &str) -> R {
        self.honest(what)?;
        // every list of the proof, every element (up to a bound) once, and some together
        let ns = tree::nodes(&self.proof);
        for (k, (p, kind)) in ns.iter().enumerate() {
            if *kind != Kind::List && ns.len() > 24 && (k + at.pick as usize) % (ns.len() / 12) != 0 {
                continue;
            }
            let mut e = at.e.clone();
            e.kind = e.kind.wrapping_add(k as u8);
            e.other = e.other.wrapping_add(k as u32);
            let mut m = self.proof.clone();
            let w = tree::change(&mut m, p, *kind, &e, &self.pool);
            if m != self.proof {
                o.class(match kind {
                    Kind::Scalar => "scalar of the proof changed",
                    Kind::Point => "point of the proof changed",
                    Kind::List => "list of the proof changed",
                });
                ensure!(!self.acc(&self.claim, &m, LB), "{}: accepted with {}", what, w);
            }
        }
        let ns = tree::nodes(&self.claim);
        for (k, (p, kind)) in ns.iter().enumerate() {
            // the points of a sparse evaluation may be extended with leading zeros, which changes nothing
            // and a row of a commitment may have no part in the opened value
            if *kind == Kind::List && tree::show(p).starts_with(".r") || *kind == Kind::Point && at.rows && tree::show(p).starts_with(".comm") {
                continue;
            }
            if *kind != Kind::List && ns.len() > 64 && (k + at.pick as usize) % (ns.len() / 24) != 0 {
                continue;
            }
            let mut e = at.e.clone();
            e.kind = e.kind.wrapping_add(k as u8).wrapping_add(3);
            let mut m = self.claim.clone();
            let w = tree::change(&mut m, p, *kind, &e, &self.pool);
            // (nor have two such rows when they change places)
            let entries = |v: &Value| tree::get(v, p).as_array().map(|l| l.len());
            let same_rows = *kind == Kind::List && at.rows && tree::show(p).starts_with(".comm") && entries(&m) == entries(&self.claim);
            if m != self.claim && !same_rows {
                o.class("claim changed");
                ensure!(!self.acc(&m, &self.proof, LB), "{}: accepted with the claim's {}", what, w);
            }
        }
        for es in &at.more {
            let (m, w) = tree::apply(&self.proof, es, &self.pool, true);
            if m != self.proof && m != self.pool {
                ensure!(!self.acc(&self.claim, &m, LB), "{}: accepted with {}", what, w);
            }
        }
        Ok(())
    }
}
#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
struct At {
    pick: u32,
    e: Edit,
    more: Vec<Vec<Edit>>,
    /// rows of the commitment stay as they are
    #[serde(default)]
    rows: bool,
}
impl At {
    /// For claims so degenerate that the elements of one proof fit into another.
    fn singly(&self, yes: bool) -> At {
        let mut a = self.clone();
        if yes {
            a.more.clear()
        }
        a
    }
}
fn at() -> impl Strategy<Value = At> + Clone {
    (any::<u32>(), edit(), vec(vec(edit(), 1..4), 3)).prop_map(|(pick, e, more)| At { pick, e, more, rows: false })
}
fn s(b: &B32) -> Scalar {
    sc(&le(&b.0))
}
fn ss(b: &[B32]) -> Vec<Scalar> {
    b.iter().map(s).collect()
}
fn lean<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}
macro_rules! d {
    ($v:expr) => {
        dec($v).ok_or("does not decode")?
    };
}

fn bytes<T: serde::de::DeserializeOwned + serde::Serialize>(v: &Value) -> Result<Vec<u8>, String> {
    let x: T = d!(v);
    bincode::serialize(&x).map_err(|e| e.to_string())
}
fn cp(v: &Value) -> Result<Pt, String> {
    tree::point(v).ok_or("a point of the claim does not decode".into())
}
fn cs(v: &Value) -> Vec<U> {
    v.as_array().map(|v| v.iter().map(tree::scalar).collect()).unwrap_or_default()
}
fn rt() -> refv::T {
    refv::T::new(LB)
}

fn knowledge(x: &Scalar, r: &Scalar) -> Run {
    let f = || KnowledgeProof::prove(&MultiCommitGens::new(1, b"k"), &mut tr(), &mut tape(), x, r);
    let ((p, c), (q, _)) = (f(), f());
    Run {
        claim: json!({ "C": j(&c) }),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(|c, p, l| {
            let p: KnowledgeProof = d!(p);
            lean(p.verify(&MultiCommitGens::new(1, b"k"), &mut Transcript::new(l), &d!(&c["C"]))).map(|_| true)
        }),
        rf: Box::new(|c, p| refv::knowledge(&mut rt(), &refv::gens(b"k", 1), &cp(&c["C"])?, &mut Rd(&bytes::<KnowledgeProof>(p)?))),
    }
}
fn equality(v1: &Scalar, s1: &Scalar, v2: &Scalar, s2: &Scalar) -> Run {
    let f = || EqualityProof::prove(&MultiCommitGens::new(1, b"k"), &mut tr(), &mut tape(), v1, s1, v2, s2);
    let ((p, c1, c2), (q, _, _)) = (f(), f());
    Run {
        claim: json!({"C1": j(&c1), "C2": j(&c2)}),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(|c, p, l| {
            let p: EqualityProof = d!(p);
            lean(p.verify(&MultiCommitGens::new(1, b"k"), &mut Transcript::new(l), &d!(&c["C1"]), &d!(&c["C2"]))).map(|_| true)
        }),
        rf: Box::new(|c, p| refv::equality(&mut rt(), &refv::gens(b"k", 1), &cp(&c["C1"])?, &cp(&c["C2"])?, &mut Rd(&bytes::<EqualityProof>(p)?))),
    }
}
fn product(v: &[Scalar; 6]) -> Run {
    let f = || ProductProof::prove(&MultiCommitGens::new(1, b"k"), &mut tr(), &mut tape(), &v[0], &v[1], &v[2], &v[3], &v[4], &v[5]);
    let ((p, x, y, z), (q, _, _, _)) = (f(), f());
    Run {
        claim: json!({"X": j(&x), "Y": j(&y), "Z": j(&z)}),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(|c, p, l| {
            let p: ProductProof = d!(p);
            lean(p.verify(&MultiCommitGens::new(1, b"k"), &mut Transcript::new(l), &d!(&c["X"]), &d!(&c["Y"]), &d!(&c["Z"]))).map(|_| true)
        }),
        rf: Box::new(|c, p| refv::product(&mut rt(), &refv::gens(b"k", 1), &cp(&c["X"])?, &cp(&c["Y"])?, &cp(&c["Z"])?, &mut Rd(&bytes::<ProductProof>(p)?))),
    }
}
fn dotproduct(x: &[Scalar], a: &[Scalar], y: &Scalar, bx: &Scalar, by: &Scalar) -> Run {
    let n = x.len();
    let g = move || (MultiCommitGens::new(1, b"one"), MultiCommitGens::new(n, b"many"));
    let f = || DotProductProof::prove(&g().0, &g().1, &mut tr(), &mut tape(), x, bx, a, y, by);
    let ((p, cx, cy), (q, _, _)) = (f(), f());
    Run {
        claim: json!({"a": j(&a.to_vec()), "Cx": j(&cx), "Cy": j(&cy)}),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(move |c, p, l| {
            let p: DotProductProof = d!(p);
            let a: Vec<Scalar> = d!(&c["a"]);
            let (g1, gn) = g();
            lean(p.verify(&g1, &gn, &mut Transcript::new(l), &a, &d!(&c["Cx"]), &d!(&c["Cy"]))).map(|_| true)
        }),
        rf: Box::new(move |c, p| refv::dotproduct(&mut rt(), &refv::gens(b"one", 1), &refv::gens(b"many", n), &cs(&c["a"]), &cp(&c["Cx"])?, &cp(&c["Cy"])?, &mut Rd(&bytes::<DotProductProof>(p)?))),
    }
}
fn dotlog(x: &[Scalar], a: &[Scalar], y: &Scalar, bx: &Scalar, by: &Scalar) -> Run {
    let n = x.len();
    let f = || DotProductProofLog::prove(&DotProductProofGens::new(n, b"log"), &mut tr(), &mut tape(), x, bx, a, y, by);
    let ((p, cx, cy), (q, _, _)) = (f(), f());
    Run {
        claim: json!({"a": j(&a.to_vec()), "Cx": j(&cx), "Cy": j(&cy)}),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(move |c, p, l| {
            let p: DotProductProofLog = d!(p);
            let a: Vec<Scalar> = d!(&c["a"]);
            let g = DotProductProofGens::new(n, b"log");
            lean(p.verify(n, &g, &mut Transcript::new(l), &a, &d!(&c["Cx"]), &d!(&c["Cy"]))).map(|_| true)
        }),
        rf: Box::new(move |c, p| refv::dotlog(&mut rt(), &refv::dot_gens(b"log", n), &cs(&c["a"]), &cp(&c["Cx"])?, &cp(&c["Cy"])?, &mut Rd(&bytes::<DotProductProofLog>(p)?))),
    }
}
/// `blind`: a hiding commitment and a blinded value, else both plain.
fn opening(z: &[Scalar], r: &[Scalar], v: &Scalar, bv: &Scalar, blind: bool) -> Run {
    let nv = r.len();
    let g = PolyCommitmentGens::new(nv, b"poly");
    let poly = DensePolynomial::new(z.to_vec());
    let (comm, blinds) = poly.commit(&g, if blind { Some(tape()) } else { None }.as_mut());
    let f = || PolyEvalProof::prove(&poly, if blind { Some(&blinds) } else { None }, r, v, if blind { Some(bv) } else { None }, &g, &mut tr(), &mut tape());
    let ((p, c), (q, _)) = (f(), f());
    let claim = if blind {
        json!({"comm": j(&comm), "r": j(&r.to_vec()), "C": j(&c)})
    } else {
        json!({"comm": j(&comm), "r": j(&r.to_vec()), "v": j(v)})
    };
    Run {
        claim,
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(move |c, p, l| {
            let p: PolyEvalProof = d!(p);
            let r: Vec<Scalar> = d!(&c["r"]);
            let comm: PolyCommitment = d!(&c["comm"]);
            let g = PolyCommitmentGens::new(nv, b"poly");
            let t = &mut Transcript::new(l);
            if blind {
                lean(p.verify(&g, t, &r, &d!(&c["C"]), &comm)).map(|_| true)
            } else {
                lean(p.verify_plain(&g, t, &r, &d!(&c["v"]), &comm)).map(|_| true)
            }
        }),
        rf: Box::new(move |c, p| {
            let rows = refv::Rd(&bytes::<PolyCommitment>(&c["comm"])?).ps()?;
            let (b, r, g) = (bytes::<PolyEvalProof>(p)?, cs(&c["r"]), refv::poly_gens(b"poly", nv));
            if blind {
                refv::opening(&mut rt(), &g, &r, &cp(&c["C"])?, &rows, &mut Rd(&b))
            } else {
                refv::opening_plain(&mut rt(), &g, &r, &tree::scalar(&c["v"]), &rows, &mut Rd(&b))
            }
        }),
    }
}
/// Sum over the cube of A*B*C; accepted when the verifier's last value is that of the tables at its point.
fn plain_sumcheck(a: Vec<U>, b: Vec<U>, c: Vec<U>, claim: &Scalar, rounds: usize) -> Result<(Run, Vec<U>, Vec<U>), String> {
    let f = || {
        let t = |z: &Vec<U>| DensePolynomial::new(scs(z));
        let (mut pa, mut pb, mut pc) = (t(&a), t(&b), t(&c));
        SumcheckInstanceProof::prove_cubic(claim, rounds, &mut pa, &mut pb, &mut pc, |x, y, z| x * y * z, &mut tr())
    };
    let (p, r, fin) = f();
    let tabs = [a, b, c];
    let tabs2 = tabs.clone();
    Ok((
        Run {
            claim: json!({ "claim": j(claim) }),
            proof: j(&p),
            pool: j(&(p, Scalar::from(9u64))),
            ok: Box::new(move |c, p, l| {
                let p: SumcheckInstanceProof = d!(p);
                let (e, r) = lean(p.verify(d!(&c["claim"]), rounds, 3, &mut Transcript::new(l)))?;
                let r = uns(&r);
                Ok(r.len() == rounds && un(&e) == tabs.iter().fold(u(1), |s, t| FP.mul(&s, &mle(t, &r))))
            }),
            rf: Box::new(move |c, p| {
                let (e, r) = refv::sumcheck(&mut rt(), &tree::scalar(&c["claim"]), rounds, 3, &mut Rd(&bytes::<SumcheckInstanceProof>(p)?))?;
                same!(e, tabs2.iter().fold(u(1), |s, t| FP.mul(&s, &mle(t, &r))), "last value");
                Ok(())
            }),
        },
        uns(&r),
        uns(&fin),
    ))
}
/// Sum of comb(tables); quad: A*B, cubic: A*(B*C - D)
fn comb(v: &[U]) -> U {
    if v.len() == 2 {
        FP.mul(&v[0], &v[1])
    } else {
        FP.mul(&v[0], &FP.sub(&FP.mul(&v[1], &v[2]), &v[3]))
    }
}
fn zk_sumcheck(t: &[Vec<U>], claim: &U, blind: &U, rounds: usize) -> Result<(Run, Vec<U>, Vec<U>), String> {
    let deg = t.len() / 2 + 1;
    let g = move || (MultiCommitGens::new(1, b"one"), MultiCommitGens::new(deg + 1, b"deg"));
    let f = || {
        let mut p: Vec<DensePolynomial> = t.iter().map(|z| DensePolynomial::new(scs(z))).collect();
        let (g1, gn) = g();
        if t.len() == 2 {
            let (a, b) = p.split_at_mut(1);
            ZKSumcheckInstanceProof::prove_quad(&sc(claim), &sc(blind), rounds, &mut a[0], &mut b[0], |x, y| x * y, &g1, &gn, &mut tr(), &mut tape())
        } else {
            let mut it = p.iter_mut();
            let (a, b, c, d) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
            ZKSumcheckInstanceProof::prove_cubic_with_additive_term(&sc(claim), &sc(blind), rounds, a, b, c, d, |x, y, z, w| x * &(y * z - w), &g1, &gn, &mut tr(), &mut tape())
        }
    };
    let ((p, r, fin, bl), (q, _, _, _)) = (f(), f());
    let cc = sc(claim).commit(&sc(blind), &g().0).compress();
    let t = t.to_vec();
    let (t2, bl2) = (t.clone(), un(&bl));
    Ok((
        Run {
            claim: json!({ "claim": j(&cc) }),
            proof: j(&p),
            pool: j(&q),
            ok: Box::new(move |c, p, l| {
                let p: ZKSumcheckInstanceProof = d!(p);
                let (g1, gn) = g();
                let (e, r) = lean(p.verify(&d!(&c["claim"]), rounds, deg, &g1, &gn, &mut Transcript::new(l)))?;
                let r = uns(&r);
                let v = comb(&t.iter().map(|t| mle(t, &r)).collect::<Vec<_>>());
                Ok(r.len() == rounds && e == sc(&v).commit(&bl, &g1).compress())
            }),
            rf: Box::new(move |c, p| {
                let (g1, gn) = (refv::gens(b"one", 1), refv::gens(b"deg", deg + 1));
                let (e, r) = refv::zk_sumcheck(&mut rt(), &cp(&c["claim"])?, rounds, deg, &g1, &gn, &mut Rd(&bytes::<ZKSumcheckInstanceProof>(p)?))?;
                same!(e, refv::com(&[comb(&t2.iter().map(|t| mle(t, &r)).collect::<Vec<_>>())], &bl2, &g1), "last value");
                Ok(())
            }),
        },
        uns(&r),
        uns(&fin),
    ))
}
fn product_circuit(z: &[U], eval: &U) -> Run {
    let n = z.len();
    let f = || ProductCircuitEvalProof::prove(&mut ProductCircuit::new(&DensePolynomial::new(scs(z))), &mut tr());
    let (p, _, _) = f();
    let z = z.to_vec();
    let z2 = z.clone();
    Run {
        claim: json!({ "v": j(&sc(eval)) }),
        proof: j(&p),
        pool: j(&(p, sc(&u(3)))),
        ok: Box::new(move |c, p, l| {
            let p: ProductCircuitEvalProof = d!(p);
            let (v, r) = p.verify(d!(&c["v"]), n, &mut Transcript::new(l));
            Ok(un(&v) == mle(&z, &uns(&r)))
        }),
        rf: Box::new(move |c, p| {
            let (v, r) = refv::product_circuit(&mut rt(), &tree::scalar(&c["v"]), n, &mut Rd(&bytes::<ProductCircuitEvalProof>(p)?))?;
            same!(v, mle(&z2, &r), "last value");
            Ok(())
        }),
    }
}
fn batched(zs: &[Vec<U>], ds: &[[Vec<U>; 3]], evals: &[U], devals: &[U]) -> Run {
    let n = zs[0].len();
    let t = |z: &Vec<U>| DensePolynomial::new(scs(z));
    let mut ps: Vec<ProductCircuit> = zs.iter().map(|z| ProductCircuit::new(&t(z))).collect();
    let mut dd: Vec<DotProductCircuit> = vec![];
    for d in ds {
        let (a, b) = DotProductCircuit::new(t(&d[0]), t(&d[1]), t(&d[2])).split();
        dd.push(a);
        dd.push(b);
    }
    let (p, _) = ProductCircuitEvalProofBatched::prove(&mut ps.iter_mut().collect(), &mut dd.iter_mut().collect(), &mut tr());
    let (zs, ds) = (zs.to_vec(), ds.to_vec());
    let (zs2, ds2) = (zs.clone(), ds.clone());
    Run {
        claim: json!({"v": j(&scs(evals)), "d": j(&scs(devals))}),
        proof: j(&p),
        pool: j(&(p, sc(&u(3)))),
        ok: Box::new(move |c, p, l| {
            let p: ProductCircuitEvalProofBatched = d!(p);
            let (v, d): (Vec<Scalar>, Vec<Scalar>) = (d!(&c["v"]), d!(&c["d"]));
            if v.len() != zs.len() || d.len() != 2 * ds.len() {
                return Err("the caller knows how many claims there are".into());
            }
            let (cv, cd, r) = p.verify(&v, &d, n, &mut Transcript::new(l));
            let r = uns(&r);
            let want: Vec<U> = zs.iter().map(|z| mle(z, &r)).collect();
            let wd: Vec<U> = ds.iter().flat_map(|d| d.iter().map(|t| mle(t, &r)).collect::<Vec<_>>()).collect();
            Ok(uns(&cv) == want && uns(&cd) == wd)
        }),
        rf: Box::new(move |c, p| {
            let (v, d, r) = refv::batched(&mut rt(), &cs(&c["v"]), &cs(&c["d"]), n, &mut Rd(&bytes::<ProductCircuitEvalProofBatched>(p)?))?;
            same!(v, zs2.iter().map(|z| mle(z, &r)).collect::<Vec<_>>(), "last values");
            same!(d, ds2.iter().flat_map(|d| d.iter().map(|t| mle(t, &r)).collect::<Vec<_>>()).collect::<Vec<U>>(), "last values of the inner products");
            Ok(())
        }),
    }
}
type Ent = (u32, u32, B32);
fn sparse(ms: &[Vec<Ent>], rx: &[Scalar], ry: &[Scalar], evals: &[Scalar]) -> Run {
    let (x, y) = (rx.len(), ry.len());
    let nnz = ms.iter().map(|m| m.len()).max().unwrap();
    let k = ms.len();
    let g = move || SparseMatPolyCommitmentGens::new(b"sparse", x, y, nnz, k);
    let sp: Vec<SparseMatPolynomial> = ms
        .iter()
        .map(|m| SparseMatPolynomial::new(x, y, m.iter().map(|e| SparseMatEntry::new(e.0 as usize, e.1 as usize, s(&e.2))).collect()))
        .collect();
    let (comm, dense) = SparseMatPolynomial::multi_commit(&sp.iter().collect::<Vec<_>>(), &g());
    let p = SparseMatPolyEvalProof::prove(&dense, rx, ry, evals, &g(), &mut tr(), &mut tape());
    let q = SparseMatPolyEvalProof::prove(&dense, rx, ry, evals, &g(), &mut tr(), &mut tape());
    Run {
        claim: json!({"comm": j(&comm), "rx": j(&rx.to_vec()), "ry": j(&ry.to_vec()), "evals": j(&evals.to_vec())}),
        proof: j(&p),
        pool: j(&q),
        ok: Box::new(move |c, p, l| {
            let p: SparseMatPolyEvalProof = d!(p);
            let comm: SparseMatPolyCommitment = d!(&c["comm"]);
            let (rx, ry, ev): (Vec<Scalar>, Vec<Scalar>, Vec<Scalar>) = (d!(&c["rx"]), d!(&c["ry"]), d!(&c["evals"]));
            lean(p.verify(&comm, &rx, &ry, &ev, &g(), &mut Transcript::new(l))).map(|_| true)
        }),
        rf: Box::new(move |c, p| {
            let b = bytes::<SparseMatPolyCommitment>(&c["comm"])?;
            let cm = refv::SparseCom::read(&mut Rd(&b))?;
            let gens = refv::sparse_gens(b"sparse", x, y, nnz, k);
            refv::sparse(&mut rt(), &cm, &cs(&c["rx"]), &cs(&c["ry"]), &cs(&c["evals"]), &gens, &mut Rd(&bytes::<SparseMatPolyEvalProof>(p)?))
        }),
    }
}
fn pt(g: &GroupElement) -> Pt {
    tree::point(&j(&g.compress())).unwrap()
}
fn msm(v: &[U], g: &[Pt]) -> Pt {
    v.iter().zip(g).fold(None, |a, (k, p)| SECQ.add(&a, &SECQ.mul(k, p)))
}
fn main() {
    let mut c = Check::new("C18", "a case is a distinct (claim, attack); an edit that leaves claim and proof as they were is skipped");
    c.assume("merlin, multiexp, sha3 and primeorder are replaced by stand-ins with the published behaviour (DESIGN.md)");
    c.assume("a sum-check or product-circuit proof counts as accepted when the values it reduces to are those of the committed tables, as its callers require");
    c.sub("commitments", 160, 6000, 8, || (0usize..6).prop_flat_map(|n| (vec(fe(), n), vec(fe(), n), fe(), fe(), fe(), 0usize..6)), |(a, b, ra, rb, k, mid): &(Vec<B32>, Vec<B32>, B32, B32, B32, usize), o: &mut Obs| {
        let n = a.len();
        let g = MultiCommitGens::new(n, b"homomorphic");
        same!(g.n, n, "generator count");
        let gs: Vec<Pt> = g.G.iter().map(pt).collect();
        let h = pt(&g.h);
        same!(gs.len(), n, "generators");
        let mut all = gs.clone();
        all.push(h);
        for i in 0..all.len() {
            ensure!(all[i].is_some() && SECQ.on(&all[i]), "generator {} is the identity or off the curve", i);
            for k in 0..i {
                ensure!(all[i] != all[k] && all[i] != SECQ.neg(&all[k]), "generators {} and {} are equal", i, k);
            }
        }
        let (ua, ub, ura, urb, k) = (us(a), us(b), le(&ra.0), le(&rb.0), le(&k.0));
        if ua.iter().all(is_zero) {
            o.class("zero vector")
        }
        let com = |v: &[U], r: &U| SECQ.add(&msm(v, &gs), &SECQ.mul(r, &h));
        let ca = scs(&ua).commit(&sc(&ura), &g);
        same!(pt(&ca), com(&ua, &ura), "commitment of a Vec");
        let cb = scs(&ub)[..].commit(&sc(&urb), &g);
        same!(pt(&cb), com(&ub, &urb), "commitment of a slice");
        let sum: Vec<U> = ua.iter().zip(&ub).map(|(x, y)| FP.add(x, y)).collect();
        same!(pt(&scs(&sum).commit(&sc(&FP.add(&ura, &urb)), &g)), SECQ.add(&pt(&ca), &pt(&cb)), "sum of commitments");
        same!(pt(&(ca + cb)), SECQ.add(&pt(&ca), &pt(&cb)), "group sum");
        let sca: Vec<U> = ua.iter().map(|x| FP.mul(x, &k)).collect();
        same!(pt(&scs(&sca).commit(&sc(&FP.mul(&ura, &k)), &g)), pt(&(ca * sc(&k))), "multiple of a commitment");
        // scaled and split generators
        let gk = g.scale(&sc(&k));
        same!((gk.n, pt(&gk.h)), (n, h), "scaled generators");
        same!(gk.G.iter().map(pt).collect::<Vec<_>>(), gs.iter().map(|p| SECQ.mul(&k, p)).collect::<Vec<_>>(), "scaled generators");
        let mid = mid % (n + 1);
        let (l, r) = g.split_at(mid);
        same!((l.n, r.n, pt(&l.h), pt(&r.h)), (mid, n - mid, h, h), "split generators");
        same!(l.G.iter().chain(&r.G).map(pt).collect::<Vec<_>>(), gs, "split generators");
        let cl = g.clone();
        same!((cl.n, cl.G.iter().map(pt).collect::<Vec<_>>(), pt(&cl.h)), (n, gs.clone(), h), "cloned generators");
        let again = MultiCommitGens::new(n, b"homomorphic");
        same!((again.G.iter().map(pt).collect::<Vec<_>>(), pt(&again.h)), (gs, h), "generators are a function of the label");
        let other = MultiCommitGens::new(n, b"another label");
        ensure!(pt(&other.h) != h, "another label gives the same generator");
        // one scalar
        let g1 = MultiCommitGens::new(1, b"single");
        same!(pt(&sc(&k).commit(&sc(&ura), &g1)), SECQ.add(&SECQ.mul(&k, &pt(&g1.G[0])), &SECQ.mul(&ura, &pt(&g1.h))), "commitment of a scalar");
        ensure!(no_panic(|| scs(&[k, k, k]).commit(&sc(&ura), &g1)).is_err(), "three scalars committed to with one generator");
        Ok(())
    });
    c.sub("commitments_larger", 16, 300, 8, || (7usize..150).prop_flat_map(|n| (vec(fe(), n), fe())), |(a, r): &(Vec<B32>, B32), o: &mut Obs| {
        let (a, r) = (us(a), le(&r.0));
        o.class(if a.len() > 32 { "more than 32 elements" } else { "up to 32 elements" });
        let g = MultiCommitGens::new(a.len(), b"larger");
        let gs: Vec<Pt> = g.G.iter().map(pt).collect();
        let mut seen: Vec<Vec<u8>> = gs.iter().chain([&pt(&g.h)]).map(|p| SECQ.compress(p)[1..].to_vec()).collect();
        seen.sort();
        seen.dedup();
        same!(seen.len(), a.len() + 1, "distinct generators");
        same!(pt(&scs(&a).commit(&sc(&r), &g)), SECQ.add(&msm(&a, &gs), &SECQ.mul(&r, &pt(&g.h))), "commitment");
        Ok(())
    });
    c.sub("polynomial_commitments", 80, 3000, 8, || (0usize..6).prop_flat_map(|l| vec(fe(), 1usize << l)), |z: &Vec<B32>, o: &mut Obs| {
        let z = us(z);
        let l = z.len().trailing_zeros() as usize;
        let g = PolyCommitmentGens::new(l, b"poly");
        let p = DensePolynomial::new(scs(&z));
        let (c, _) = p.commit(&g, None);
        let rows: Vec<Value> = j(&c)["C"].as_array().unwrap().clone();
        let (lv, rv) = (1usize << (l / 2), 1usize << (l - l / 2));
        same!(rows.len(), lv, "rows");
        o.class(if lv == rv { "square" } else { "not square" });
        let gs: Vec<Pt> = g.gens.gens_n.G.iter().map(pt).collect();
        for (i, r) in rows.iter().enumerate() {
            same!(tree::point(r).unwrap(), msm(&z[i * rv..(i + 1) * rv], &gs), "row {}", i);
        }
        // with blinds: every row differs from the plain one by its own multiple of h
        let (b, _) = p.commit(&g, Some(&mut tape()));
        let br: Vec<Value> = j(&b)["C"].as_array().unwrap().clone();
        same!(br.len(), lv, "blinded rows");
        let mut diffs = vec![];
        for (x, y) in rows.iter().zip(&br) {
            let d = SECQ.add(&tree::point(y).unwrap(), &SECQ.neg(&tree::point(x).unwrap()));
            ensure!(d.is_some(), "row without a blind");
            ensure!(!diffs.contains(&d), "two rows share a blind");
            diffs.push(d);
        }
        Ok(())
    });
    c.sub("knowledge", 80, 3000, 8, || (fe(), fe(), at()), |(x, r, a): &(B32, B32, At), o: &mut Obs| {
        let run = knowledge(&s(x), &s(r));
        if s(x) != Scalar::zero() || s(r) != Scalar::zero() {
            run.bound("knowledge")?;
        }
        run.attack(&a.singly(s(x) == s(r) && s(x) == Scalar::zero()), o, "knowledge")
    });
    c.sub("equality", 80, 3000, 8, || (fe(), fe(), fe(), fe(), at()), |(v, r1, r2, w, a): &(B32, B32, B32, B32, At), o: &mut Obs| {
        equality(&s(v), &s(r1), &s(v), &s(r2)).attack(&a.singly(r1 == r2), o, "equality")?;
        if v != w {
            o.class("unequal values");
            equality(&s(v), &s(r1), &s(w), &s(r2)).refused("equality of unequal values")?;
            equality(&s(v), &s(r1), &s(w), &s(r1)).refused("equality of unequal values under one blind")?;
        }
        let neg = -s(v);
        if neg != s(v) {
            equality(&s(v), &s(r1), &neg, &-s(r1)).refused("equality of opposite values")?;
        }
        Ok(())
    });
    c.sub("product", 80, 3000, 8, || (vec(fe(), 6), at()), |(v, a): &(Vec<B32>, At), o: &mut Obs| {
        let v = ss(v);
        let xy = v[0] * v[2];
        if xy == Scalar::zero() {
            o.class("zero product")
        }
        product(&[v[0], v[1], v[2], v[3], xy, v[5]]).attack(&a.singly(v.iter().all(|x| *x == Scalar::zero())), o, "product")?;
        for z in [v[4], xy + Scalar::one(), -xy, v[0] + v[2], v[0], v[2]] {
            if z != xy {
                o.class("wrong product");
                product(&[v[0], v[1], v[2], v[3], z, v[5]]).refused("wrong product")?;
            }
        }
        Ok(())
    });
    c.sub("dot_product", 64, 2500, 8, || (1usize..8).prop_flat_map(|n| (vec(fe(), n), vec(fe(), n), fe(), fe(), fe(), at())), |(x, a, y, bx, by, t): &(Vec<B32>, Vec<B32>, B32, B32, B32, At), o: &mut Obs| {
        let yy = sc(&dot(&us(x), &us(a)));
        let (x, a) = (ss(x), ss(a));
        if x.len() == 1 {
            o.class("size one")
        }
        dotproduct(&x, &a, &yy, &s(bx), &s(by)).attack(t, o, "dot product")?;
        for y in [s(y), yy + Scalar::one(), -yy] {
            if y != yy {
                dotproduct(&x, &a, &y, &s(bx), &s(by)).refused("wrong dot product")?;
            }
        }
        Ok(())
    });
    let dot_product_log_case = |(x, a, y, bx, by, t): &(Vec<B32>, Vec<B32>, B32, B32, B32, At), o: &mut Obs| -> R {
        let yy = sc(&dot(&us(x), &us(a)));
        let (x, a) = (ss(x), ss(a));
        if x.len() == 1 {
            o.class("size one")
        }
        if a.iter().all(|v| *v == Scalar::zero()) {
            o.class("zero public vector");
            dotlog(&x, &a, &yy, &s(bx), &s(by)).honest("log dot product")?;
            let r = dotlog(&x, &a, &(yy + Scalar::one()), &s(bx), &s(by));
            if r.acc(&r.claim, &r.proof, LB) {
                o.known("dotlog-zero-public-vector");
            }
            return Ok(());
        }
        dotlog(&x, &a, &yy, &s(bx), &s(by)).attack(t, o, "log dot product")?;
        for y in [s(y), yy + Scalar::one(), -yy] {
            if y != yy {
                dotlog(&x, &a, &y, &s(bx), &s(by)).refused("wrong log dot product")?;
            }
        }
        Ok(())
    };
    c.sub("dot_product_log", 64, 2500, 8, || (0usize..5).prop_flat_map(|l| (vec(fe(), 1usize << l), vec(fe(), 1usize << l), fe(), fe(), fe(), at())), dot_product_log_case);
    c.sub("dot_product_log_larger", 8, 100, 8, || (5usize..8).prop_flat_map(|l| (vec(fe(), 1usize << l), vec(fe(), 1usize << l), fe(), fe(), fe(), at())), dot_product_log_case);
    c.sub("dot_product_log_zero_vector", 8, 100, 8, || (0usize..4).prop_flat_map(|l| (vec(fe(), 1usize << l), fe(), fe())), |(x, bx, by): &(Vec<B32>, B32, B32), o: &mut Obs| {
        let a = vec![Scalar::zero(); x.len()];
        dotlog(&ss(x), &a, &Scalar::zero(), &s(bx), &s(by)).honest("log dot product")?;
        let r = dotlog(&ss(x), &a, &Scalar::one(), &s(bx), &s(by));
        if r.acc(&r.claim, &r.proof, LB) {
            o.known("dotlog-zero-public-vector");
        }
        Ok(())
    });
    let opening_case = |(z, r, v, bv, bl, t): &(Vec<B32>, Vec<B32>, B32, B32, bool, At), o: &mut Obs| -> R {
        let vv = sc(&mle(&us(z), &us(r)));
        let (z, r) = (ss(z), ss(r));
        o.class(if *bl { "hiding" } else { "plain" });
        let mut t = t.clone();
        t.rows = r.iter().any(|x| *x == Scalar::zero() || *x == Scalar::one());
        opening(&z, &r, &vv, &s(bv), *bl).attack(&t, o, "opening")?;
        for v in [s(v), vv + Scalar::one(), -vv] {
            if v != vv {
                opening(&z, &r, &v, &s(bv), *bl).refused("opening to a wrong value")?;
            }
        }
        Ok(())
    };
    c.sub("opening", 64, 2500, 8, || (0usize..6).prop_flat_map(|l| (vec(fe(), 1usize << l), vec(fe(), l), fe(), fe(), any::<bool>(), at())), opening_case);
    c.sub("opening_larger", 8, 200, 8, || (6usize..14).prop_flat_map(|l| (vec(fe(), 1usize << l), vec(fe(), l), fe(), fe(), any::<bool>(), at())), opening_case);
    let sumcheck_case = |(t, w, a): &(Vec<Vec<B32>>, B32, At), o: &mut Obs| -> R {
        let t: Vec<Vec<U>> = t.iter().map(|z| us(z)).collect();
        let l = t[0].len().trailing_zeros() as usize;
        if l == 0 {
            o.class("no rounds")
        }
        let sum = (0..t[0].len()).fold(u(0), |s, i| FP.add(&s, &FP.mul(&FP.mul(&t[0][i], &t[1][i]), &t[2][i])));
        let (run, r, fin) = plain_sumcheck(t[0].clone(), t[1].clone(), t[2].clone(), &sc(&sum), l)?;
        same!(fin, t.iter().map(|t| mle(t, &r)).collect::<Vec<_>>(), "final values");
        run.attack(a, o, "sum-check")?;
        for v in [FP.add(&sum, &u(1)), le(&w.0), FP.neg(&sum)] {
            if v != sum {
                plain_sumcheck(t[0].clone(), t[1].clone(), t[2].clone(), &sc(&v), l)?.0.refused("wrong sum")?;
            }
        }
        Ok(())
    };
    c.sub("sumcheck", 200, 8000, 8, || (0usize..6).prop_flat_map(|l| (vec(vec(fe(), 1usize << l), 3), fe(), at())), sumcheck_case);
    c.sub("sumcheck_larger", 24, 600, 8, || (6usize..14).prop_flat_map(|l| (vec(vec(fe(), 1usize << l), 3), fe(), at())), sumcheck_case);
    let zk_sumcheck_case = |(t, w, b, a): &(Vec<Vec<B32>>, B32, B32, At), o: &mut Obs| -> R {
        let t: Vec<Vec<U>> = t.iter().map(|z| us(z)).collect();
        let l = t[0].len().trailing_zeros() as usize;
        o.class(if t.len() == 2 { "quadratic" } else { "cubic" });
        let sum = (0..t[0].len()).fold(u(0), |s, i| FP.add(&s, &comb(&t.iter().map(|t| t[i]).collect::<Vec<_>>())));
        let (run, r, fin) = zk_sumcheck(&t, &sum, &le(&b.0), l)?;
        same!(fin, t.iter().map(|t| mle(t, &r)).collect::<Vec<_>>(), "final values");
        run.attack(a, o, "zk sum-check")?;
        for v in [FP.add(&sum, &u(1)), le(&w.0), FP.neg(&sum)] {
            if v != sum {
                zk_sumcheck(&t, &v, &le(&b.0), l)?.0.refused("wrong sum")?;
            }
        }
        Ok(())
    };
    c.sub("zk_sumcheck", 48, 2000, 8, || (1usize..5, any::<bool>()).prop_flat_map(|(l, q)| (vec(vec(fe(), 1usize << l), if q { 2 } else { 4 }), fe(), fe(), at())), zk_sumcheck_case);
    c.sub("zk_sumcheck_larger", 8, 200, 8, || (5usize..13, any::<bool>()).prop_flat_map(|(l, q)| (vec(vec(fe(), 1usize << l), if q { 2 } else { 4 }), fe(), fe(), at())), zk_sumcheck_case);
    let product_circuit_case = |(z, w, a): &(Vec<B32>, B32, At), o: &mut Obs| -> R {
        let z = us(z);
        let v = z.iter().fold(u(1), |s, x| FP.mul(&s, x));
        product_circuit(&z, &v).attack(a, o, "product circuit")?;
        for x in [le(&w.0), FP.add(&v, &u(1)), u(0), u(1)] {
            if x != v {
                product_circuit(&z, &x).refused("wrong product")?;
            }
        }
        Ok(())
    };
    c.sub("product_circuit", 100, 4000, 8, || (1usize..6).prop_flat_map(|l| (vec(fe(), 1usize << l), fe(), at())), product_circuit_case);
    c.sub("product_circuit_larger", 24, 600, 8, || (6usize..13).prop_flat_map(|l| (vec(fe(), 1usize << l), fe(), at())), product_circuit_case);
    c.sub("product_circuits_batched", 64, 3000, 8, || {
        (1usize..5, 1usize..4, 0usize..3).prop_flat_map(|(l, k, d)| (vec(vec(fe(), 1usize << l), k), vec(vec(vec(fe(), 1usize << l), 3), d), any::<u16>(), fe(), at()))
    }, |(zs, ds, at_, w, a): &(Vec<Vec<B32>>, Vec<Vec<Vec<B32>>>, u16, B32, At), o: &mut Obs| {
        let zs: Vec<Vec<U>> = zs.iter().map(|z| us(z)).collect();
        let ds: Vec<[Vec<U>; 3]> = ds.iter().map(|d| [us(&d[0]), us(&d[1]), us(&d[2])]).collect();
        o.class(if ds.is_empty() { "products only" } else { "with dot products" });
        let v: Vec<U> = zs.iter().map(|z| z.iter().fold(u(1), |s, x| FP.mul(&s, x))).collect();
        let tri = |d: &[Vec<U>; 3], r: std::ops::Range<usize>| r.fold(u(0), |s, i| FP.add(&s, &FP.mul(&FP.mul(&d[0][i], &d[1][i]), &d[2][i])));
        let n = zs[0].len();
        let dv: Vec<U> = ds.iter().flat_map(|d| vec![tri(d, 0..n / 2), tri(d, n / 2..n)]).collect();
        batched(&zs, &ds, &v, &dv).attack(a, o, "batched product circuits")?;
        // one wrong claim, and two that compensate each other
        let k = *at_ as usize;
        let mut bad = v.clone();
        bad[k % v.len()] = FP.add(&v[k % v.len()], &FP.add(&u(1), &FP.sq(&u(w.0[0] as u64))));
        batched(&zs, &ds, &bad, &dv).refused("wrong product")?;
        if v.len() > 1 && v[0] != v[1] {
            let mut bad = v.clone();
            bad.swap(0, 1);
            batched(&zs, &ds, &bad, &dv).refused("swapped products")?;
        }
        if !dv.is_empty() {
            let mut bad = dv.clone();
            bad[k % dv.len()] = FP.add(&dv[k % dv.len()], &u(1));
            batched(&zs, &ds, &v, &bad).refused("wrong dot product")?;
            let mut bad = dv.clone();
            bad[0] = FP.add(&bad[0], &u(1));
            bad[1] = FP.sub(&bad[1], &u(1));
            batched(&zs, &ds, &v, &bad).refused("shifted between halves")?;
        }
        Ok(())
    });
    c.sub("sparse_evaluation", 24, 1000, 8, || {
        (0usize..4, 0usize..4)
            .prop_map(|(x, y)| if x + y == 0 { (1, 0) } else { (x, y) })
            .prop_flat_map(|(x, y)| (vec(vec((0..1u32 << x, 0..1u32 << y, fe()), 0..9), 3), vec(fe(), x), vec(fe(), y), any::<u16>(), at()))
    }, |(ms, rx, ry, k, a): &(Vec<Vec<Ent>>, Vec<B32>, Vec<B32>, u16, At), o: &mut Obs| {
        let (rx, ry) = (us(rx), us(ry));
        if rx.len() != ry.len() {
            o.class("not square")
        }
        let ev: Vec<U> = ms
            .iter()
            .map(|m| m.iter().fold(u(0), |s, e| FP.add(&s, &FP.mul(&le(&e.2 .0), &FP.mul(&chi(e.0 as usize, &rx), &chi(e.1 as usize, &ry))))))
            .collect();
        sparse(ms, &scs(&rx), &scs(&ry), &scs(&ev)).attack(a, o, "sparse evaluation")?;
        // the prover's code refuses a wrong value, so proofs of true values are adapted to wrong claims
        let run = sparse(ms, &scs(&rx), &scs(&ry), &scs(&ev));
        let i = *k as usize % ev.len();
        let n = (i + 1) % ev.len();
        let mut bad = ev.clone();
        bad[i] = FP.add(&bad[i], &u(1));
        let mut far = bad.clone();
        far[n] = FP.sub(&far[n], &u(1));
        for (b, which) in [(&bad, "a wrong evaluation"), (&far, "evaluations that compensate each other")] {
            let mut c = run.claim.clone();
            c["evals"] = j(&scs(b));
            ensure!(!run.acc(&c, &run.proof, LB), "sparse evaluation: accepted with {}", which);
            for half in 0..2 {
                let mut p = run.proof.clone();
                let e = &mut p["poly_eval_network_proof"]["proof_prod_layer"]["eval_val"][half];
                if e.is_null() {
                    o.class("no partial evaluations found in the proof");
                    continue;
                }
                o.class("partial evaluations adapted to a wrong claim");
                for (k, x) in e.as_array_mut().unwrap().iter_mut().enumerate() {
                    *x = tree::of_scalar(&FP.add(&tree::scalar(x), &FP.sub(&b[k], &ev[k])));
                }
                ensure!(!run.acc(&c, &p, LB), "sparse evaluation: accepted with {} and partial evaluations to match", which);
            }
        }
        // a value moved between the halves
        let mut p = run.proof.clone();
        let e = &mut p["poly_eval_network_proof"]["proof_prod_layer"]["eval_val"];
        if !e.is_null() {
            for (half, d) in [(0, u(1)), (1, FP.neg(&u(1)))] {
                let x = &mut e[half][i];
                *x = tree::of_scalar(&FP.add(&tree::scalar(x), &d));
            }
            ensure!(!run.acc(&run.claim, &p, LB), "sparse evaluation: accepted with wrong partial evaluations");
        }
        Ok(())
    });
    // the reference prover (rs/refv) carries a false claim, every message consistent with it, up to one equation
    let carried_lies_sumcheck_case = |(t, w, b, k, seed): &(Vec<Vec<B32>>, B32, B32, u8, u64), o: &mut Obs| -> R {
        let t: Vec<Vec<U>> = t.iter().map(|z| us(z)).collect();
        let l = t[0].len().trailing_zeros() as usize;
        let sum = (0..t[0].len()).fold(u(0), |s, i| FP.add(&s, &comb(&t.iter().map(|t| t[i]).collect::<Vec<_>>())));
        let (claim, blind, deg, at) = (FP.add(&sum, &FP.add(&u(1), &FP.sq(&u(w.0[0] as u64)))), le(&b.0), t.len() / 2 + 1, *k as usize % (l + 1));
        let (g1, gn) = (refv::gens(b"one", 1), refv::gens(b"deg", deg + 1));
        let (mut tabs, mut wr) = (t.clone(), Wr::default());
        let stop = if at == l { None } else { Some(at) };
        o.class(if at == l { "the last value is false" } else { "one round is false" });
        let (_, bl, _) = prove::zk_sumcheck(&mut rt(), &mut tabs, deg, &comb, &claim, &blind, stop, &g1, &gn, &mut Rng(*seed), &mut wr);
        let cc = refv::com(&[claim], &blind, &g1);
        let mut last = None;
        let f = refv::all_failures(|| {
            last = Some(refv::zk_sumcheck(&mut rt(), &cc, l, deg, &g1, &gn, &mut Rd(&wr.0))?);
            Ok(())
        });
        same!(f.len(), stop.is_some() as usize, "HARNESS: equations broken");
        let p: ZKSumcheckInstanceProof = bincode::deserialize(&wr.0).map_err(|e| e.to_string())?;
        let (s1, sn) = (MultiCommitGens::new(1, b"one"), MultiCommitGens::new(deg + 1, b"deg"));
        let cc = sc(&claim).commit(&sc(&blind), &s1).compress();
        let got = no_panic(|| p.verify(&cc, l, deg, &s1, &sn, &mut tr()).ok()).ok().flatten();
        if let Some((e, r)) = got {
            ensure!(stop.is_none(), "a sum-check that is false in round {} alone was accepted", at);
            let v = comb(&t.iter().map(|t| mle(t, &uns(&r))).collect::<Vec<_>>());
            ensure!(e != sc(&v).commit(&sc(&bl), &s1).compress(), "the last value of a false sum-check is true");
        }
        Ok(())
    };
    c.sub("carried_lies_sumcheck", 160, 5000, 8, || (1usize..5, any::<bool>()).prop_flat_map(|(l, q)| (vec(vec(fe(), 1usize << l), if q { 2 } else { 4 }), fe(), fe(), any::<u8>(), any::<u64>())), carried_lies_sumcheck_case);
    c.sub("carried_lies_sumcheck_larger", 48, 1000, 8, || (5usize..13, any::<bool>()).prop_flat_map(|(l, q)| (vec(vec(fe(), 1usize << l), if q { 2 } else { 4 }), fe(), fe(), any::<u8>(), any::<u64>())), carried_lies_sumcheck_case);
    let carried_lies_products_case = |(zs, ds, k, at_, wd): &(Vec<Vec<B32>>, Vec<Vec<Vec<B32>>>, u16, u8, bool), o: &mut Obs| -> R {
        let zs: Vec<Vec<U>> = zs.iter().map(|z| us(z)).collect();
        let n = zs[0].len();
        let mut dots: Vec<[Vec<U>; 3]> = vec![];
        for d in ds {
            for h in [0..n / 2, n / 2..n] {
                dots.push([0, 1, 2].map(|m| us(&d[m][h.clone()])))
            }
        }
        let mut v: Vec<U> = zs.iter().map(|z| z.iter().fold(u(1), |s, x| FP.mul(&s, x))).collect();
        let mut dv: Vec<U> = dots.iter().map(|d| (0..n / 2).fold(u(0), |s, i| FP.add(&s, &FP.mul(&FP.mul(&d[0][i], &d[1][i]), &d[2][i])))).collect();
        let (k, layers) = (*k as usize, n.trailing_zeros() as usize);
        let mut stop = None;
        let lie_dots = *wd && !dv.is_empty();
        if lie_dots {
            let i = k % dv.len();
            dv[i] = FP.add(&dv[i], &u(1));
            o.class("false inner product")
        } else {
            let i = k % v.len();
            v[i] = FP.add(&v[i], &u(1));
            stop = Some(*at_ as usize % layers);
            o.class("false product")
        }
        let mut wr = Wr::default();
        if prove::batched(&mut rt(), &zs, &v, &dots, &dv, stop, lie_dots, &prove::Into { factor: *at_ as usize % 3, with: vec![] }, &mut wr).is_none() {
            o.trivial();
            return Ok(());
        }
        let f = refv::all_failures(|| refv::batched(&mut rt(), &v, &dv, n, &mut Rd(&wr.0)).map(|_| ()));
        same!(f.len(), 1, "HARNESS: equations broken");
        let p: ProductCircuitEvalProofBatched = bincode::deserialize(&wr.0).map_err(|e| e.to_string())?;
        let (v, dv) = (scs(&v), scs(&dv));
        let got = no_panic(|| p.verify(&v, &dv, n, &mut tr()));
        ensure!(got.is_err(), "false products were accepted, where only this fails: {}", f[0]);
        Ok(())
    };
    c.sub("carried_lies_products", 600, 20000, 8, || {
        (1usize..5, 1usize..4, 0usize..3).prop_flat_map(|(l, k, d)| (vec(vec(fe(), 1usize << l), k), vec(vec(vec(fe(), 1usize << l), 3), d), any::<u16>(), any::<u8>(), any::<bool>()))
    }, carried_lies_products_case);
    c.sub("carried_lies_products_larger", 640, 12000, 8, || {
        prop_oneof![9 => 5usize..10, 1 => 10usize..13].prop_flat_map(|l| (Just(l), 1usize..4, 0usize..3)).prop_flat_map(|(l, k, d)| (vec(vec(fe(), 1usize << l), k), vec(vec(vec(fe(), 1usize << l), 3), d), any::<u16>(), any::<u8>(), any::<bool>()))
    }, carried_lies_products_case);
    let carried_lies_sparse_case = |(ms, rx, ry, k, a, b): &(Vec<Vec<Ent>>, Vec<B32>, Vec<B32>, u16, u8, u8), o: &mut Obs| -> R {
        let (rx, ry) = (us(rx), us(ry));
        let mats: Vec<refv::Mat> = ms.iter().map(|m| m.iter().map(|e| (e.0 as usize, e.1 as usize, le(&e.2 .0))).collect()).collect();
        let mut ev: Vec<U> = mats.iter().map(|m| m.iter().fold(u(0), |s, e| FP.add(&s, &FP.mul(&e.2, &FP.mul(&chi(e.0, &rx), &chi(e.1, &ry)))))).collect();
        let i = *k as usize % ev.len();
        ev[i] = FP.add(&ev[i], &u(1));
        let (x, y, nnz) = (rx.len(), ry.len(), ms.iter().map(|m| m.len()).max().unwrap());
        let (ops, mem) = (nnz.max(2).next_power_of_two().trailing_zeros() as usize, x.max(y));
        let w = *b % 4;
        let stop = match a % 11 {
            8 => Stop::Deref,
            9 => Stop::Addr(false),
            10 => Stop::Addr(true),
            0 => Stop::Halves,
            1 => Stop::DotLayer,
            2 => Stop::DotFinal,
            3 => Stop::Val,
            4 => Stop::Sets,
            5 => Stop::Audit,
            6 => Stop::Set(w, Some(*b as usize / 4 % if w == 1 || w == 2 { ops } else { mem })),
            _ => Stop::Set(w, None),
        };
        let g = refv::sparse_gens(b"sparse", x, y, nnz, ms.len());
        let cm = refv::sparse_commit(&mats, x, y, &g);
        let mut wr = Wr::default();
        if prove::sparse(&mut rt(), &cm, &mats, &rx, &ry, &ev, &g, stop, &mut Rng(*k as u64), &mut wr).is_none() {
            o.trivial();
            return Ok(());
        }
        o.class(match stop {
            Stop::Halves => "the value",
            Stop::DotLayer | Stop::DotFinal => "the inner products",
            Stop::Val | Stop::Deref | Stop::Addr(_) | Stop::Audit => "an opening",
            Stop::Sets => "the memory's sets",
            Stop::Set(_, Some(_)) => "a layer of a set's product",
            _ => "the elements of a set",
        });
        let f = refv::all_failures(|| refv::sparse(&mut rt(), &cm, &rx, &ry, &ev, &g, &mut Rd(&wr.0)).map(|_| ()));
        ensure!(f.len() == 1 && f[0].contains(&stop.equation()), "HARNESS: {:?} breaks {:?}", stop, f);
        let gens = SparseMatPolyCommitmentGens::new(b"sparse", x, y, nnz, ms.len());
        let sp: Vec<SparseMatPolynomial> = ms
            .iter()
            .map(|m| SparseMatPolynomial::new(x, y, m.iter().map(|e| SparseMatEntry::new(e.0 as usize, e.1 as usize, s(&e.2))).collect()))
            .collect();
        let (comm, _) = SparseMatPolynomial::multi_commit(&sp.iter().collect::<Vec<_>>(), &gens);
        let p: SparseMatPolyEvalProof = bincode::deserialize(&wr.0).map_err(|e| e.to_string())?;
        let (rx, ry, ev) = (scs(&rx), scs(&ry), scs(&ev));
        let got = no_panic(|| p.verify(&comm, &rx, &ry, &ev, &gens, &mut tr()).is_ok());
        ensure!(!matches!(got, Ok(true)), "a false evaluation was accepted, where only this fails: {} ({:?})", stop.equation(), stop);
        Ok(())
    };
    c.sub("carried_lies_sparse", 320, 6000, 8, || {
        (0usize..4, 0usize..4, 1usize..4)
            .prop_map(|(x, y, k)| if x + y == 0 { (1, 0, k) } else { (x, y, k) })
            .prop_flat_map(|(x, y, k)| (vec(vec((0..1u32 << x, 0..1u32 << y, fe()), 0..9), k), vec(fe(), x), vec(fe(), y), any::<u16>(), any::<u8>(), any::<u8>()))
    }, carried_lies_sparse_case);
    c.sub("carried_lies_sparse_larger", 80, 1500, 8, || {
        (4usize..7, 4usize..7, 1usize..4)
            .prop_map(|(x, y, k)| if x + y == 0 { (1, 0, k) } else { (x, y, k) })
            .prop_flat_map(|(x, y, k)| (vec(vec((0..1u32 << x, 0..1u32 << y, fe()), 9..70), k), vec(fe(), x), vec(fe(), y), any::<u16>(), any::<u8>(), any::<u8>()))
    }, carried_lies_sparse_case);
    let _: Option<CompressedGroup> = None;
    c.finish()
}
