//! C19: polynomial algebra against its definition.
include!("common.rs");
use proptest::collection::vec;
use spartan_int::dense_mlpoly::*;
use spartan_int::math::Math;
use spartan_int::sparse_mlpoly::*;
use spartan_int::unipoly::*;
use spartan_int::{nizk, product_tree};
use vk::*;

fn table(max: usize) -> impl Strategy<Value = (usize, Vec<B32>, Vec<B32>)> + Clone {
    prop_oneof![30 => 0..=max, 1 => max + 1..=max + 4].prop_flat_map(|l| (Just(l), vec(fe(), 1 << l), vec(fe(), l)))
}
fn contents(p: &DensePolynomial) -> Vec<U> {
    (0..p.len()).map(|i| un(&p[i])).collect()
}
fn well(p: &DensePolynomial, z: &[U], what: &str) -> R {
    same!(p.len(), z.len(), "{}: length", what);
    same!(1usize << p.get_num_vars(), z.len(), "{}: number of variables", what);
    same!(contents(p), z.to_vec(), "{}: table", what);
    Ok(())
}
fn bits01(o: &mut Obs, r: &[U]) {
    if r.is_empty() {
        o.class("no variables")
    } else if r.iter().all(|x| *x == u(0) || *x == u(1)) {
        o.class("vertex of the cube")
    } else if r.iter().any(|x| *x == u(0) || *x == u(1)) {
        o.class("some coordinate 0 or 1")
    }
}
type Ent = (u32, u32, B32);

fn main() {
    let mut c = Check::new("C19", "a case is a distinct (tables, points); every case compares at least one value with its definition");
    c.assume("field arithmetic of the reference model (decided against the code by C01..C03)");
    let evaluate_case = |(l, z, r): &(usize, Vec<B32>, Vec<B32>), o: &mut Obs| -> R {
        let (z, r) = (us(z), us(r));
        bits01(o, &r);
        let p = DensePolynomial::new(scs(&z));
        well(&p, &z, "new")?;
        let want = mle(&z, &r);
        same!(un(&p.evaluate(&scs(&r))), want, "evaluate");
        well(&p.clone(), &z, "clone")?;
        let e = EqPolynomial::new(scs(&r));
        let all = uns(&e.evals());
        same!(all, (0..1usize << l).map(|i| chi(i, &r)).collect::<Vec<_>>(), "eq evals");
        // factored form
        let (ll, rl) = EqPolynomial::compute_factored_lens(*l);
        same!(ll + rl, *l, "factored lengths");
        let (lv, rv) = e.compute_factored_evals();
        let (lv, rv) = (uns(&lv), uns(&rv));
        same!((lv.len(), rv.len()), (1 << ll, 1 << rl), "factored table sizes");
        same!(lv, (0..1usize << ll).map(|i| chi(i, &r[..ll])).collect::<Vec<_>>(), "left factor");
        same!(rv, (0..1usize << rl).map(|i| chi(i, &r[ll..])).collect::<Vec<_>>(), "right factor");
        // rows combined with the left factor, then the right one
        let lz = uns(&p.bound(&scs(&lv)));
        same!(lz.len(), rv.len(), "bound length");
        same!(dot(&lz, &rv), want, "bound . right factor");
        // any other combination of the rows
        let w: Vec<U> = (0..1usize << ll).map(|i| FP.add(&z[i % z.len()], &u(i as u64 + 3))).collect();
        let lw = uns(&p.bound(&scs(&w)));
        let m = 1usize << rl;
        for i in 0..m {
            let d = (0..w.len()).fold(u(0), |a, j| FP.add(&a, &FP.mul(&w[j], &z[j * m + i])));
            same!(lw[i], d, "bound column {}", i);
        }
        Ok(())
    };
    c.sub("evaluate", 7500, 120000, 8, || table(7), evaluate_case);
    c.sub("eq_polynomial", 7500, 120000, 8, || (0usize..10).prop_flat_map(|l| (vec(fe(), l), vec(fe(), l))), |(a, b): &(Vec<B32>, Vec<B32>), o: &mut Obs| {
        let (a, b) = (us(a), us(b));
        bits01(o, &b);
        let want = (0..a.len()).fold(u(1), |s, i| {
            let t = FP.add(&FP.mul(&a[i], &b[i]), &FP.mul(&FP.sub(&u(1), &a[i]), &FP.sub(&u(1), &b[i])));
            FP.mul(&s, &t)
        });
        same!(un(&EqPolynomial::new(scs(&a)).evaluate(&scs(&b))), want, "eq(a,b)");
        same!(un(&EqPolynomial::new(scs(&b)).evaluate(&scs(&a))), want, "eq(b,a)");
        if a.len() <= 6 {
            same!(mle(&uns(&EqPolynomial::new(scs(&a)).evals()), &b), want, "eq table at b");
        }
        // the identity polynomial: the number whose bits (most significant first) are the point's
        let id = (0..a.len()).fold(u(0), |s, i| FP.add(&FP.add(&s, &s), &a[i]));
        same!(un(&IdentityPolynomial::new(a.len()).evaluate(&scs(&a))), id, "identity");
        Ok(())
    });
    c.sub("identity_wide", 1500, 20000, 8, || (0usize..64).prop_flat_map(|l| vec(fe(), l)), |a: &Vec<B32>, _o: &mut Obs| {
        let a = us(a);
        let id = (0..a.len()).fold(u(0), |s, i| FP.add(&FP.add(&s, &s), &a[i]));
        same!(un(&IdentityPolynomial::new(a.len()).evaluate(&scs(&a))), id, "identity");
        Ok(())
    });
    // a history of bindings from either end, against the definition
    c.sub("binding", 7500, 120000, 8, || (table(7), vec((any::<bool>(), fe()), 7)), |((l, z, _), ops): &((usize, Vec<B32>, Vec<B32>), Vec<(bool, B32)>), o: &mut Obs| {
        let mut z = us(z);
        let mut p = DensePolynomial::new(scs(&z));
        if *l == 0 {
            o.trivial()
        }
        for (top, r) in ops.iter().take(*l) {
            let r = le(&r.0);
            let n = z.len() / 2;
            let lin = |a: &U, b: &U| FP.add(&FP.mul(&FP.sub(&u(1), &r), a), &FP.mul(&r, b));
            if *top {
                p.bound_poly_var_top(&sc(&r));
                z = (0..n).map(|i| lin(&z[i], &z[i + n])).collect();
                o.class("bound from the top");
            } else {
                p.bound_poly_var_bot(&sc(&r));
                z = (0..n).map(|i| lin(&z[2 * i], &z[2 * i + 1])).collect();
                o.class("bound from the bottom");
            }
            well(&p, &z, "after binding")?;
            well(&p.clone(), &z, "clone after binding")?;
        }
        Ok(())
    });
    // every variable bound gives the evaluation, whichever end is used
    let binding_evaluates_case = |((l, z, r), order): &((usize, Vec<B32>, Vec<B32>), u16), o: &mut Obs| -> R {
        let (z, r) = (us(z), us(r));
        bits01(o, &r);
        let mut p = DensePolynomial::new(scs(&z));
        let (mut a, mut b) = (0, *l);
        for k in 0..*l {
            if order >> k & 1 == 1 {
                p.bound_poly_var_top(&sc(&r[a]));
                a += 1
            } else {
                b -= 1;
                p.bound_poly_var_bot(&sc(&r[b]))
            }
        }
        same!(p.len(), 1, "all bound");
        same!(p.get_num_vars(), 0, "all bound");
        same!(un(&p[0]), mle(&z, &r), "bound everywhere");
        Ok(())
    };
    c.sub("binding_evaluates", 4000, 80000, 8, || (table(7), any::<u16>()), binding_evaluates_case);
    // tables of the size the deployed circuits need, grown from a seed
    c.sub("full_size", 48, 400, 8, || (any::<u64>(), 11usize..15, any::<u16>()), move |&(seed, l, order): &(u64, usize, u16), o: &mut Obs| {
        let mut x = seed;
        let mut v = || {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let y = x ^ x >> 29;
            B32(to_le(&if y % 4 == 0 { u(y >> 60) } else { [y, x.rotate_left(17), !y, y >> 1] }))
        };
        let z: Vec<B32> = (0..1usize << l).map(|_| v()).collect();
        let r: Vec<B32> = (0..l).map(|_| v()).collect();
        let t = (l, z, r);
        evaluate_case(&t, o)?;
        binding_evaluates_case(&(t, order), o)
    });
    c.sub("merge_split_extend", 6000, 80000, 8, || (prop_oneof![40 => 0usize..5, 1 => 5usize..8], prop_oneof![40 => 1usize..9, 1 => 9usize..40]).prop_flat_map(|(l, n)| (Just(l), vec(vec(fe(), 1usize << l), n), any::<u16>())), |(l, zs, k): &(usize, Vec<Vec<B32>>, u16), o: &mut Obs| {
        let zs: Vec<Vec<U>> = zs.iter().map(|z| us(z)).collect();
        let ps: Vec<DensePolynomial> = zs.iter().map(|z| DensePolynomial::new(scs(z))).collect();
        let mut all: Vec<U> = zs.concat();
        if !zs.len().is_power_of_two() {
            o.class("merge pads with zeros")
        }
        all.resize(all.len().next_power_of_two(), u(0));
        let m = DensePolynomial::merge(ps.iter());
        well(&m, &all, "merge")?;
        // extend: the second table behind the first
        let mut e = ps[0].clone();
        let second = &ps[(*k as usize) % ps.len()];
        e.extend(second);
        well(&e, &[zs[0].clone(), zs[(*k as usize) % ps.len()].clone()].concat(), "extend")?;
        // and back
        let (a, b) = e.split(1 << l);
        well(&a, &zs[0], "split left")?;
        well(&b, &zs[(*k as usize) % ps.len()], "split right")?;
        // a smaller power of two: the first two blocks of that size
        if *l > 0 {
            let s = 1usize << (*k as usize % *l);
            let (a, b) = e.split(s);
            well(&a, &zs[0][..s], "short split left")?;
            well(&b, &e_range(&e, s, 2 * s), "short split right")?;
        }
        let idx: Vec<usize> = (0..1usize << l).map(|i| (i * 7919) ^ (*k as usize) << (i % 40)).collect();
        well(&DensePolynomial::from_usize(&idx), &idx.iter().map(|i| u(*i as u64)).collect::<Vec<_>>(), "from_usize")?;
        Ok(())
    });
    // tables of which some variables are bound already are extended, cloned and split by what is left
    c.sub("dot_products", 4000, 40000, 8, || prop_oneof![40 => 0usize..40, 1 => 40usize..400].prop_flat_map(|n| (vec(fe(), n), vec(fe(), n))), |(a, b): &(Vec<B32>, Vec<B32>), _o: &mut Obs| {
        let (a, b) = (us(a), us(b));
        same!(un(&nizk::DotProductProof::compute_dotproduct(&scs(&a), &scs(&b))), dot(&a, &b), "dot product");
        same!(un(&nizk::DotProductProofLog::compute_dotproduct(&scs(&a), &scs(&b))), dot(&a, &b), "dot product (log)");
        Ok(())
    });
    c.sub("sparse_matrices", 4000, 60000, 8, || {
        (prop_oneof![40 => (0usize..5, 0usize..5), 1 => (4usize..9, 4usize..9)], prop_oneof![40 => 0usize..12, 1 => 12usize..200]).prop_flat_map(|((x, y), n)| {
            let ent = (0..1u32 << x, 0..1u32 << y, fe());
            (vec(vec(ent, 0..=n), 1..4), vec(fe(), x), vec(fe(), y), vec(fe(), 1usize << y), vec(fe(), 1usize << x))
        })
    }, |(ms, rx, ry, z, w): &(Vec<Vec<Ent>>, Vec<B32>, Vec<B32>, Vec<B32>, Vec<B32>), o: &mut Obs| {
        let (rx, ry, z, w) = (us(rx), us(ry), us(z), us(w));
        bits01(o, &rx);
        let (x, y) = (rx.len(), ry.len());
        let sp: Vec<SparseMatPolynomial> = ms
            .iter()
            .map(|m| SparseMatPolynomial::new(x, y, m.iter().map(|e| SparseMatEntry::new(e.0 as usize, e.1 as usize, sc(&le(&e.2 .0)))).collect()))
            .collect();
        let got = uns(&SparseMatPolynomial::multi_evaluate(&sp.iter().collect::<Vec<_>>(), &scs(&rx), &scs(&ry)));
        same!(got.len(), ms.len(), "one value per matrix");
        for (k, m) in ms.iter().enumerate() {
            let mut dense = vec![vec![u(0); 1 << y]; 1 << x];
            let mut seen = std::collections::BTreeSet::new();
            for e in m {
                let d = &mut dense[e.0 as usize][e.1 as usize];
                *d = FP.add(d, &le(&e.2 .0));
                if !seen.insert((e.0, e.1)) {
                    o.class("repeated position")
                }
            }
            same!(sp[k].get_num_nz_entries(), m.len().next_power_of_two(), "entries");
            let r: Vec<U> = rx.iter().chain(&ry).cloned().collect();
            same!(got[k], mle(&dense.concat(), &r), "matrix {} at the point", k);
            let mz = uns(&sp[k].multiply_vec(1 << x, 1 << y, &scs(&z)));
            same!(mz, dense.iter().map(|row| dot(row, &z)).collect::<Vec<_>>(), "matrix {} times vector", k);
            let t = uns(&sp[k].compute_eval_table_sparse(&scs(&w), 1 << x, 1 << y));
            let want: Vec<U> = (0..1usize << y).map(|j| (0..1usize << x).fold(u(0), |a, i| FP.add(&a, &FP.mul(&w[i], &dense[i][j])))).collect();
            same!(t, want, "vector times matrix {}", k);
        }
        Ok(())
    });
    c.sub("sparse_polynomials", 4000, 60000, 8, || (0usize..12).prop_flat_map(|l| (prop_oneof![40 => vec((0..1u32 << l, fe()), 0..10), 1 => vec((0..1u32 << l, fe()), 10..150)], vec(fe(), l))), |(es, r): &(Vec<(u32, B32)>, Vec<B32>), o: &mut Obs| {
        let r = us(r);
        bits01(o, &r);
        let p = SparsePolynomial::new(r.len(), es.iter().map(|e| SparsePolyEntry::new(e.0 as usize, sc(&le(&e.1 .0)))).collect());
        let want = es.iter().fold(u(0), |a, e| FP.add(&a, &FP.mul(&le(&e.1 .0), &chi(e.0 as usize, &r))));
        same!(un(&p.evaluate(&scs(&r))), want, "sparse evaluation");
        Ok(())
    });
    c.sub("univariate", 10000, 200000, 8, || (vec(fe(), 3..5), fe(), fe()), |(ev, at, hint): &(Vec<B32>, B32, B32), o: &mut Obs| {
        let (ev, at, hint) = (us(ev), le(&at.0), le(&hint.0));
        o.class(if ev.len() == 3 { "quadratic" } else { "cubic" });
        let p = UniPoly::from_evals(&scs(&ev));
        same!(p.degree(), ev.len() - 1, "degree");
        let co = uns(&p.as_vec());
        same!(co.len(), ev.len(), "coefficients");
        let horner = |c: &[U], x: &U| c.iter().rev().fold(u(0), |a, k| FP.add(&FP.mul(&a, x), k));
        for (i, e) in ev.iter().enumerate() {
            same!(un(&p.evaluate(&sc(&u(i as u64)))), *e, "value at {}", i);
            same!(horner(&co, &u(i as u64)), *e, "coefficients at {}", i);
        }
        // Lagrange at any point
        let mut want = u(0);
        for i in 0..ev.len() {
            let (mut n, mut d) = (u(1), u(1));
            for j in 0..ev.len() {
                if i != j {
                    n = FP.mul(&n, &FP.sub(&at, &u(j as u64)));
                    d = FP.mul(&d, &FP.sub(&u(i as u64), &u(j as u64)));
                }
            }
            want = FP.add(&want, &FP.mul(&ev[i], &FP.mul(&n, &FP.inv(&d))));
        }
        same!(un(&p.evaluate(&sc(&at))), want, "value at a point");
        same!(un(&p.eval_at_zero()), ev[0], "eval_at_zero");
        same!(un(&p.eval_at_one()), ev[1], "eval_at_one");
        let h = FP.add(&ev[0], &ev[1]);
        let q = p.compress().decompress(&sc(&h));
        same!(uns(&q.as_vec()), co, "compress/decompress");
        // with another hint: the polynomial with the same other coefficients and that sum
        let q = p.compress().decompress(&sc(&hint));
        let qc = uns(&q.as_vec());
        same!(qc.len(), co.len(), "decompressed length");
        for i in 0..co.len() {
            if i != 1 {
                same!(qc[i], co[i], "decompressed coefficient {}", i);
            }
        }
        same!(FP.add(&qc[0], &horner(&qc, &u(1))), hint, "decompressed sum");
        Ok(())
    });
    c.sub("product_circuits", 2500, 40000, 8, || prop_oneof![40 => 1usize..7, 1 => 7usize..12].prop_flat_map(|l| (vec(fe(), 1usize << l), vec(fe(), 1usize << l), vec(fe(), 1usize << l))), |(a, b, w): &(Vec<B32>, Vec<B32>, Vec<B32>), o: &mut Obs| {
        let (a, b, w) = (us(a), us(b), us(w));
        let d = |z: &[U]| DensePolynomial::new(scs(z));
        // products are mostly zero when factors are: shift them away in every other case
        let a1: Vec<U> = if b[0][0] & 1 == 1 { a.iter().map(|x| if is_zero(x) { u(5) } else { *x }).collect() } else { a.clone() };
        let want = a1.iter().fold(u(1), |s, x| FP.mul(&s, x));
        o.class(if is_zero(&want) { "zero product" } else { "non-zero product" });
        same!(un(&product_tree::ProductCircuit::new(&d(&a1)).evaluate()), want, "product");
        let tri = |a: &[U], b: &[U], w: &[U]| (0..a.len()).fold(u(0), |s, i| FP.add(&s, &FP.mul(&FP.mul(&a[i], &b[i]), &w[i])));
        let mut q = product_tree::DotProductCircuit::new(d(&a), d(&b), d(&w));
        same!(un(&q.evaluate()), tri(&a, &b, &w), "weighted dot product");
        let (x, y) = q.split();
        let h = a.len() / 2;
        same!(un(&x.evaluate()), tri(&a[..h], &b[..h], &w[..h]), "left half");
        same!(un(&y.evaluate()), tri(&a[h..], &b[h..], &w[h..]), "right half");
        Ok(())
    });
    c.sub("integers", 20000, 800000, 8, || (prop_oneof![0usize..70, any::<usize>(), (0u32..64, 0usize..3).prop_map(|(s, d)| (1usize << s).wrapping_add(d).wrapping_sub(1))], 0usize..64), |(n, b): &(usize, usize), o: &mut Obs| {
        let n = *n;
        if n > 0 {
            // the least l with 2^l >= n
            let want = (0..=64).find(|l| (1u128 << l) >= n as u128).unwrap();
            same!(n.log_2(), want, "log_2 {}", n);
            if n.is_power_of_two() {
                o.class("power of two")
            }
        } else {
            ensure!(no_panic(|| n.log_2()).is_err(), "log_2 of 0");
        }
        same!(b.pow2(), 1usize << b, "pow2 {}", b);
        // perfect squares below the exactness limit of doubles
        let r = n % (1 << 26);
        same!((r * r).square_root(), r, "square root of {}^2", r);
        let s = n % (1 << 50);
        let q = s.square_root();
        ensure!((q as u128).pow(2) <= s as u128 && (q as u128 + 1).pow(2) > s as u128, "square root of {}: {}", s, q);
        let bits = n.get_bits(*b);
        same!(bits, (0..*b).map(|i| (n >> (b - 1 - i)) & 1 == 1).collect::<Vec<bool>>(), "bits of {}", n);
        Ok(())
    });
    c.finish()
}
fn e_range(p: &DensePolynomial, a: usize, b: usize) -> Vec<U> {
    (a..b).map(|i| un(&p[i])).collect()
}
