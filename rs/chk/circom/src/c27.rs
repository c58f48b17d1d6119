//! C27: a prover who chooses the free intermediate values cannot change the outputs.
include!("common.rs");
include!("sigs.rs");
use circ::Hint;
use proptest::collection::vec;
use std::collections::BTreeMap;

/// One attempt: what to do with which free values.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Try {
    kind: u8,
    class: u16,
    inst: u16,
    other: u16,
    val: B32,
    how: u8,
}
fn tries(n: usize) -> impl Strategy<Value = Vec<Try>> + Clone {
    vec(
        (0u8..12, any::<u16>(), any::<u16>(), any::<u16>(), fe(), any::<u8>())
            .prop_map(|(kind, class, inst, other, val, how)| Try { kind, class, inst, other, val, how }),
        n,
    )
}
fn mutate(old: &U, t: &Try) -> U {
    match t.how % 10 {
        0 => f(&t.val),
        1 => [0; 4],
        2 => u(1),
        3 => fp::add(old, &u(1)),
        4 => fp::sub(old, &u(1)),
        5 => fp::neg(old),
        6 => fp::sub(&u(1), old),
        7 => fp::add(old, &fp::shl(&u(1), t.val.0[0] as u32)),
        8 => fp::add(old, &[0, 0, 1, 0]),
        _ => fp::mul(old, &f(&t.val)),
    }
}
struct Attack<'a> {
    file: &'static str,
    name: &'static str,
    args: &'a [u64],
    ins: In<'a>,
    /// Other inputs of the same circuit, whose honest free values may be replayed.
    donor: In<'a>,
    outs: &'a [&'static str],
    /// The only outputs the inputs allow; None if no assignment may satisfy the constraints.
    want: Option<Vec<Vec<U>>>,
}
fn attack(o: &mut Obs, a: &Attack, tries: &[Try]) -> R {
    let (l, t) = circuit(a.file, a.name, a.args)?;
    needs(&t, a.name, &a.ins, a.outs)?;
    let err = |e| format!("{}: {e}", a.name);
    let (hs, w) = circ::hints(&l, &t, &a.ins).map_err(err)?;
    let (dn, _) = circ::hints(&l, &t, &a.donor).map_err(err)?;
    ensure!(hs.len() == dn.len(), "free values differ between inputs");
    let verdict = |w: &[U], what: &str| -> R {
        if broken(&t, w).is_some() {
            return Ok(());
        }
        match &a.want {
            None => Err(format!("{}: a false statement satisfies all constraints ({what})", a.name)),
            Some(want) => {
                let got: Vec<Vec<U>> = a.outs.iter().map(|n| get(&t, w, n)).collect();
                if got == *want {
                    return Ok(());
                }
                Err(format!("{}: all constraints hold with other outputs ({what})", a.name))
            }
        }
    };
    match &a.want {
        Some(_) => ensure!(broken(&t, &w).is_none(), "{}: the honest witness breaks a constraint", a.name),
        None => {}
    }
    verdict(&w, "honest values")?;
    if hs.is_empty() {
        o.class("no free values");
        return Ok(());
    }
    let mut by_class: BTreeMap<&str, Vec<usize>> = BTreeMap::new();
    for (i, h) in hs.iter().enumerate() {
        by_class.entry(&h.class).or_default().push(i);
    }
    let classes: Vec<&Vec<usize>> = by_class.values().collect();
    // free values of one array of one instance: the bits of a decomposition
    let group = |i: usize| -> Vec<usize> {
        let h = &hs[i];
        by_class[h.class.as_str()].iter().copied().filter(|j| hs[*j].base == h.base).collect()
    };
    for tr in tries {
        let cl = classes[tr.class as usize % classes.len()];
        let i = cl[tr.inst as usize % cl.len()];
        let mut over: HashMap<usize, U> = HashMap::new();
        let what;
        match tr.kind {
            0..=3 => {
                over.insert(i, mutate(&hs[i].value, tr));
                what = "one free value";
            }
            4 => {
                // another decomposition of the same field element
                let g = group(i);
                if g.len() < 2 || g.len() > 400 || g.iter().any(|j| hs[*j].value[1..] != [0; 3] || hs[*j].value[0] > 1) {
                    continue;
                }
                let k = g.len();
                let mut v = [0u64; 8];
                for (b, j) in g.iter().enumerate() {
                    v[b / 64] |= hs[*j].value[0] << (b % 64);
                }
                let mut c = 0u128;
                for (b, x) in v.iter_mut().enumerate() {
                    c += *x as u128 + if b < 4 { P[b] as u128 } else { 0 };
                    *x = c as u64;
                    c >>= 64;
                }
                if (k..512).any(|b| v[b / 64] >> (b % 64) & 1 == 1) {
                    continue;
                }
                for (b, j) in g.iter().enumerate() {
                    over.insert(*j, u(v[b / 64] >> (b % 64) & 1));
                }
                what = "another decomposition into bits";
            }
            5 | 6 => {
                // two free values of the same instance, moved against each other
                let mates: Vec<usize> = (0..hs.len()).filter(|j| hs[*j].base == hs[i].base && *j != i).collect();
                if mates.is_empty() {
                    continue;
                }
                let j = mates[tr.other as usize % mates.len()];
                let d = if tr.how & 1 == 0 { u(1) } else { u(tr.val.0[0] as u64) };
                let scale = match tr.how >> 1 & 3 {
                    0 => u(1),
                    1 => [0, 0, 1, 0],
                    2 => fp::neg(&u(1)),
                    _ => [0, 1, 0, 0],
                };
                over.insert(i, fp::add(&hs[i].value, &fp::mul(&d, &scale)));
                over.insert(j, fp::sub(&hs[j].value, &d));
                what = "two free values against each other";
            }
            7 => {
                for j in (0..hs.len()).filter(|j| hs[*j].base == hs[i].base) {
                    over.insert(j, if tr.how & 1 == 0 { dn[j].value } else { mutate(&hs[j].value, tr) });
                }
                what = "all free values of an instance";
            }
            8 => {
                for j in cl {
                    over.insert(*j, if tr.how & 1 == 0 { dn[*j].value } else { mutate(&hs[*j].value, tr) });
                }
                what = "all free values of a kind";
            }
            9 => {
                over.insert(i, dn[i].value);
                what = "a free value of another run";
            }
            10 => {
                for j in i..hs.len() {
                    over.insert(j, dn[j].value);
                }
                what = "the free values of another run from some point on";
            }
            _ => {
                let c2 = classes[tr.other as usize % classes.len()];
                for j in cl.iter().chain(c2) {
                    over.insert(*j, dn[*j].value);
                }
                what = "two kinds of free values of another run";
            }
        }
        let w = match witness(&l, &t, &a.ins, &mut |k: usize, _: &Tpl, _: u32, _: u32, v: U| over.get(&k).copied().unwrap_or(v)) {
            Ok(w) => w,
            Err(_) => continue, // the calculator itself refuses (an assert)
        };
        let first = over.keys().min().map(|k| hs[*k].class.clone()).unwrap_or_default();
        verdict(&w, &format!("{what}, {first}"))?;
    }
    Ok(())
}
fn add_ins<'a>(p: &Pt, q: &Pt) -> In<'a> {
    let (p, q) = (xy(p), xy(q));
    vec![("xP", vec![p.0]), ("yP", vec![p.1]), ("xQ", vec![q.0]), ("yQ", vec![q.1])]
}
fn two<'a>(p: &Pt) -> Option<Vec<Vec<U>>> {
    let p = xy(p);
    Some(vec![vec![p.0], vec![p.1]])
}
/// A point one of whose coordinates is below 2^256 - p or thereabouts.
fn special() -> impl Strategy<Value = Point> + Clone {
    let tiny = || prop_oneof![0u64..100, 0x1000003D1u64 - 50..0x1000003D1 + 50, 0u64..0x200000000]
        .prop_map(|x| B32(to_le(&u(x))));
    prop_oneof![
        2 => (tiny(), any::<bool>()).prop_map(|(x, o)| Point::X(x, o)),
        2 => tiny().prop_map(Point::Y),
        1 => point(),
    ]
}
fn k_bits(s: &U) -> Vec<U> {
    let k = FN.add(&mod_q(s), &mod_q(&tq()));
    (0..256).map(|i| u(refm::bit(&k, i) as u64)).collect()
}
/// The signals of a deployed circuit that its instance file declares public, in wire order.
fn public_wires(file: &'static str) -> Result<(String, Vec<String>), String> {
    let l = lib(file)?;
    let (public, t) = l.compile_main()?;
    for p in &public {
        ensure_str(t.inputs().any(|s| s.name == *p), &format!("{p} is not an input"))?;
    }
    Ok((t.name.clone(), t.inputs().filter(|s| public.contains(&s.name)).flat_map(|s| vec![s.name.clone(); s.len()]).collect()))
}
fn ensure_str(c: bool, m: &str) -> R {
    if c {
        Ok(())
    } else {
        Err(m.into())
    }
}
fn main() {
    let mut c = Check::new("C27", "a case is a distinct (inputs, substitutions of free values); non-trivial if the circuit has free values");
    c.assume("circom 2 semantics as implemented by our interpreter (rs/circ); circomlib templates as re-written in rs/circ/lib");
    self_test(&mut c);
    c.sub("add-complete", 6000, 100000, 8, || (point(), rel(), any::<bool>(), (point(), rel()), tries(14)), |(p, r, sw, d, t): &(Point, Rel, bool, (Point, Rel), Vec<Try>), o: &mut Obs| {
        let (p, q) = pair(p, r);
        let (p, q) = if *sw { (q, p) } else { (p, q) };
        let (p2, q2) = pair(&d.0, &d.1);
        attack(o, &Attack { file: ADD, name: "Secp256k1AddComplete", args: &[], ins: add_ins(&p, &q), donor: add_ins(&p2, &q2), outs: &["outX", "outY"], want: two(&SECP.add(&p, &q)) }, t)
    });
    c.sub("add-incomplete", 2500, 40000, 8, || (point(), rel(), (point(), point()), tries(8)), |(p, r, d, t): &(Point, Rel, (Point, Point), Vec<Try>), o: &mut Obs| {
        let (p, q) = pair(p, r);
        let (Some(a), Some(b)) = (p, q) else { o.trivial(); return Ok(()) };
        if a.0 == b.0 {
            o.trivial(); // outside the documented domain
            return Ok(());
        }
        attack(o, &Attack { file: ADD, name: "Secp256k1AddIncomplete", args: &[], ins: add_ins(&p, &q), donor: add_ins(&make(&d.0), &make(&d.1)), outs: &["outX", "outY"], want: two(&SECP.add(&p, &q)) }, t)
    });
    c.sub("double", 2000, 30000, 8, || (point(), point(), tries(8)), |(p, d, t): &(Point, Point, Vec<Try>), o: &mut Obs| {
        let (p, d) = (make(p), make(d));
        let ins = |p: &Pt| vec![("xP", vec![xy(p).0]), ("yP", vec![xy(p).1])];
        attack(o, &Attack { file: DOUBLE, name: "Secp256k1Double", args: &[], ins: ins(&p), donor: ins(&d), outs: &["outX", "outY"], want: two(&SECP.dbl(&p)) }, t)
    });
    c.sub("scalar", 1500, 30000, 8, || (scalar(), scalar(), tries(24)), |(s, d, t): &(Scalar, Scalar, Vec<Try>), o: &mut Obs| {
        let (s, d) = (sc(s), sc(d));
        attack(o, &Attack { file: MUL, name: "K", args: &[], ins: vec![("s", vec![s])], donor: vec![("s", vec![d])], outs: &["out"], want: Some(vec![k_bits(&s)]) }, t)
    });
    c.sub("scalar-split", 1500, 30000, 8, || (prop_oneof![3 => scalar(), 2 => (0i64..0x1000003D1).prop_map(|d| Scalar::Near(0, d)), 1 => (0i64..300).prop_map(|d| Scalar::Near(0, d))], vec(fe(), 4)), |(s, t): &(Scalar, Vec<B32>), o: &mut Obs| {
        // every way to read s as two registers: the honest one plus multiples of the modulus and register overflows
        let s = sc(s);
        let (l, t_) = circuit(MUL, "K", &[])?;
        needs(&t_, "K", &vec![("s", vec![s])], &["out"])?;
        let (hs, _) = circ::hints(&l, &t_, &[("s", vec![s])])?;
        let at = |n: &str| hs.iter().position(|h| h.class == n);
        let (Some(lo), Some(hi)) = (at("K.slo"), at("K.shi")) else {
            o.trivial();
            o.class("no split registers");
            return Ok(());
        };
        let (vl, vh) = (hs[lo].value, hs[hi].value);
        let mut alts = vec![];
        let (sum, over) = refm::addc(&s, &P);
        if !over {
            o.class("s + p fits in 256 bits");
            alts.push(([sum[0], sum[1], 0, 0], [sum[2], sum[3], 0, 0]));
        }
        for x in t {
            let x = f(x);
            let k = u(x[0] & 0xff);
            alts.push((fp::sub(&vl, &fp::mul(&k, &[0, 0, 1, 0])), fp::add(&vh, &k)));
            alts.push((fp::add(&vl, &fp::mul(&k, &[0, 0, 1, 0])), fp::sub(&vh, &k)));
            alts.push((x, vh));
            alts.push((vl, x));
            alts.push(([x[0], x[1], 0, 0], [x[2], x[3], 0, 0]));
            // any low register with the high register that makes the sum right in the field
            let h = fp::mul(&fp::sub(&s, &x), &fp::inv(&[0, 0, 1, 0]));
            alts.push((x, h));
            alts.push((fp::sub(&s, &fp::mul(&u(x[1] & 3), &[0, 0, 1, 0])), u(x[1] & 3)));
        }
        let want = k_bits(&s);
        for (a, b) in alts {
            let w = witness(&l, &t_, &[("s", vec![s])], &mut |k: usize, _: &Tpl, _: u32, _: u32, v: U| if k == lo { a } else if k == hi { b } else { v });
            let Ok(w) = w else { continue };
            if broken(&t_, &w).is_none() {
                ensure!(get(&t_, &w, "out") == want, "K: slo = {:x?}, shi = {:x?} for s = {:x?} satisfies all constraints with other bits", a, b, s);
            }
        }
        Ok(())
    });
    c.sub("mul", 500, 10000, 8, || (scalar(), point(), scalar(), point(), tries(5)), |(s, p, s2, p2, t): &(Scalar, Point, Scalar, Point, Vec<Try>), o: &mut Obs| {
        let (s, p, s2, p2) = (sc(s), make(p), sc(s2), make(p2));
        let ins = |s: &U, p: &Pt| vec![("scalar", vec![*s]), ("xP", vec![xy(p).0]), ("yP", vec![xy(p).1])];
        attack(o, &Attack { file: MUL, name: "Secp256k1Mul", args: &[], ins: ins(&s, &p), donor: ins(&s2, &p2), outs: &["outX", "outY"], want: two(&mulpt(&s, &p)) }, t)
    });
    c.sub("recover", 400, 8000, 8, || (sig(), sig(), tries(5)), |(a, b, t): &(Sig, Sig, Vec<Try>), o: &mut Obs| {
        let (a, b) = (eff(a), eff(b));
        attack(o, &Attack { file: EFF, name: "EfficientECDSA", args: &[], ins: eff_ins(&a), donor: eff_ins(&b), outs: &["pubKeyX", "pubKeyY"], want: Some(vec![vec![a.pk.0], vec![a.pk.1]]) }, t)
    });
    c.sub("merkle", 150, 3000, 8, || (fe(), path(6), fe(), tries(6)), |(leaf, (p, s), d, t): &(B32, (Vec<bool>, Vec<B32>), B32, Vec<Try>), o: &mut Obs| {
        let (leaf, s, d) = (f(leaf), fs(s), f(d));
        let ins = |l: &U| vec![("leaf", vec![*l]), ("pathIndices", bitsel(p)), ("siblings", s.clone())];
        attack(o, &Attack { file: TREE, name: "MerkleTreeInclusionProof", args: &[p.len() as u64], ins: ins(&leaf), donor: ins(&d), outs: &["root"], want: Some(vec![vec![root(&leaf, p, &s)]]) }, t)
    });
    c.sub("poseidon", 100, 2000, 8, || ([fe(), fe()], [fe(), fe()], tries(6)), |(a, d, t): &([B32; 2], [B32; 2], Vec<Try>), o: &mut Obs| {
        let ins = |v: &[B32; 2]| vec![("inputs", fs(v))];
        attack(o, &Attack { file: POS, name: "Poseidon", args: &[], ins: ins(a), donor: ins(d), outs: &["out"], want: Some(vec![vec![hash2(&f(&a[0]), &f(&a[1]))]]) }, t)
    });
    c.sub("flatten", 300, 5000, 8, || (1u64..=255, [fe(), fe()], [fe(), fe()], tries(8)), |(n, a, d, t): &(u64, [B32; 2], [B32; 2], Vec<Try>), o: &mut Obs| {
        let k = (256 + n - 1) / n;
        let chunks = |v: &[B32; 2]| -> In {
            let one = |v: U| (0..k).map(move |i| {
                let mut r = [0u64; 4];
                for j in 0..*n {
                    let b = i * n + j;
                    if b < 256 && refm::bit(&v, b as usize) {
                        r[j as usize / 64] |= 1 << (j % 64);
                    }
                }
                r
            });
            vec![("chunkedPubkey", one(f(&v[0])).chain(one(f(&v[1]))).collect())]
        };
        let (x, y) = (f(&a[0]), f(&a[1]));
        let want = (0..256).map(|i| refm::bit(&y, i)).chain((0..256).map(|i| refm::bit(&x, i))).map(|b| u(b as u64)).collect();
        attack(o, &Attack { file: ETH, name: "FlattenPubkey", args: &[*n, k], ins: chunks(a), donor: chunks(d), outs: &["pubkeyBits"], want: Some(vec![want]) }, t)
    });
    c.sub("pubkey-membership", 200, 4000, 8, || (sig(), sig(), path(3), fe(), tries(4), any::<bool>()), |(a, b, (p, s), alt, t, swap): &(Sig, Sig, (Vec<bool>, Vec<B32>), B32, Vec<Try>, bool), o: &mut Obs| {
        // the root (public) belongs to b's key; a's signature must not open it whatever the free values are
        let (a, b, s) = (eff(a), eff(b), fs(s));
        let leaf = |e: &Eff| hash2(&e.pk.0, &e.pk.1);
        let rb = root(&leaf(&b), p, &s);
        if a.pk == b.pk {
            o.trivial();
            return Ok(());
        }
        let mut ins = member_ins(&a, &rb, p, &s);
        if *swap {
            // b's public inputs, somebody else's s
            ins = member_ins(&Eff { s: a.s, ..b.clone() }, &rb, p, &s);
            if FN.red(&a.s) == FN.red(&b.s) {
                o.trivial();
                return Ok(());
            }
        }
        let _ = alt;
        attack(o, &Attack { file: PKM, name: "PubKeyMembership", args: &[p.len() as u64], ins, donor: member_ins(&b, &rb, p, &s), outs: &[], want: None }, t)
    });
    c.sub("address", 40, 800, 8, || (special(), scalar(), point(), sig(), tries(3)), |(pk, s, tp, d, t): &(Point, Scalar, Point, Sig, Vec<Try>), o: &mut Obs| {
        let e = eff_for(&make(pk), &sc(s), &make(tp));
        let d = eff(d);
        attack(o, &Attack { file: TO_ADDR, name: "EfficientECDSAToAddr", args: &[], ins: eff_ins(&e), donor: eff_ins(&d), outs: &["addr"], want: Some(vec![vec![addr(&e.pk.0, &e.pk.1)]]) }, t)
    });
    c.sub("address-bits", 60, 1000, 8, || (special(), scalar(), point(), 0u8..4), |(pk, s, tp, which): &(Point, Scalar, Point, u8), o: &mut Obs| {
        // every other 256-bit reading of a coordinate, in the address and the membership circuit
        let pk = make(pk);
        let e = eff_for(&pk, &sc(s), &make(tp));
        let (x, y) = e.pk;
        let (v, first) = if which & 1 == 0 { (x, true) } else { (y, false) };
        let (alias, over) = refm::addc(&v, &P);
        if over {
            o.trivial();
            o.class("coordinate has one 256-bit form");
            return Ok(());
        }
        o.class("coordinate has two 256-bit forms");
        let fake = if first { addr(&alias, &y) } else { addr(&x, &alias) };
        let honest = addr(&x, &y);
        let (file, name, args, ins): (_, _, Vec<u64>, In) = if which & 2 == 0 {
            (TO_ADDR, "EfficientECDSAToAddr", vec![], eff_ins(&e))
        } else {
            (ADM, "AddrMembership", vec![1], member_ins(&e, &root(&fake, &[false], &[u(5)]), &[false], &[u(5)]))
        };
        let (l, t) = circuit(file, name, &args)?;
        needs(&t, name, &ins, &[])?;
        let (hs, _) = circ::hints(&l, &t, &ins)?;
        // decompositions: runs of 256 free bits of one instance spelling the coordinate
        let mut groups: BTreeMap<(u32, String), Vec<usize>> = BTreeMap::new();
        for (i, h) in hs.iter().enumerate() {
            groups.entry((h.base, h.class.clone())).or_default().push(i);
        }
        let mut seen = 0;
        for g in groups.values() {
            if g.len() < 256 || (0..256).any(|i| hs[g[i]].value != u(refm::bit(&v, i) as u64)) {
                continue;
            }
            seen += 1;
            let over: HashMap<usize, U> = (0..256).map(|i| (g[i], u(refm::bit(&alias, i) as u64))).collect();
            let w = witness(&l, &t, &ins, &mut |k: usize, _: &Tpl, _: u32, _: u32, v: U| over.get(&k).copied().unwrap_or(v))?;
            if broken(&t, &w).is_none() {
                let out = if which & 2 == 0 { get(&t, &w, "addr")[0] } else { fake };
                ensure!(out == honest, "{name}: the key ({:x?}, {:x?}) also passes as the key with coordinate + p", x, y);
            }
        }
        o.class(if seen > 0 { "decomposition found" } else { "no decomposition found" });
        Ok(())
    });
    c.sub("public-wires", 1, 1, 1, || Just(0u8), |_: &u8, _o: &mut Obs| {
        let want: Vec<String> = ["root", "Tx", "Ty", "Ux", "Uy"].iter().map(|s| s.to_string()).collect();
        same!(public_wires("instances/pubkey_membership.circom")?, ("PubKeyMembership".to_string(), want.clone()), "public inputs of the public-key circuit");
        same!(public_wires("instances/addr_membership.circom")?, ("AddrMembership".to_string(), want), "public inputs of the address circuit");
        Ok(())
    });
    c.finish();
}
