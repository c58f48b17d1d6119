//! C26: the membership circuits accept exactly the valid statements.
include!("common.rs");
include!("sigs.rs");

/// Ok(true) if the honest witness for these inputs satisfies the circuit.
fn accepts(file: &'static str, name: &'static str, n: usize, ins: &In) -> Result<bool, String> {
    let (l, t) = circuit(file, name, &[n as u64])?;
    match witness(&l, &t, ins, &mut Honest) {
        Ok(w) => Ok(broken(&t, &w).is_none()),
        Err(_) => Ok(false),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alt {
    S(B32),
    NegS,
    Root(B32),
    Path(u8),
    Sibling(u8, B32),
    Tx(B32),
    Ty(B32),
    NegT,
    Ux(B32),
    Uy(B32),
    NegU,
    OtherT,
    OtherU,
    OtherTU,
    OtherS,
    OtherLeaf,
    Off(u8, i8),
}
fn alt() -> impl Strategy<Value = Alt> + Clone {
    prop_oneof![
        1 => fe().prop_map(Alt::S),
        1 => Just(Alt::NegS),
        1 => fe().prop_map(Alt::Root),
        2 => any::<u8>().prop_map(Alt::Path),
        2 => (any::<u8>(), fe()).prop_map(|(a, b)| Alt::Sibling(a, b)),
        1 => fe().prop_map(Alt::Tx),
        1 => fe().prop_map(Alt::Ty),
        1 => Just(Alt::NegT),
        1 => fe().prop_map(Alt::Ux),
        1 => fe().prop_map(Alt::Uy),
        1 => Just(Alt::NegU),
        1 => Just(Alt::OtherT),
        1 => Just(Alt::OtherU),
        1 => Just(Alt::OtherTU),
        1 => Just(Alt::OtherS),
        1 => Just(Alt::OtherLeaf),
        4 => (0u8..6, prop_oneof![Just(-1i8), Just(1i8)]).prop_map(|(a, b)| Alt::Off(a, b)),
    ]
}
/// The altered inputs, or None if nothing relevant changed.
fn alter<'a>(a: &Alt, e: &Eff, b: &Eff, rt: &U, rb: &U, p: &[bool], s: &[U]) -> Option<In<'a>> {
    let (mut e2, mut r2, mut p2, mut s2) = (e.clone(), *rt, p.to_vec(), s.to_vec());
    match a {
        Alt::S(v) => e2.s = f(v),
        Alt::NegS => e2.s = FN.neg(&e.s),
        Alt::Root(v) => r2 = f(v),
        Alt::Path(i) => {
            if p.is_empty() {
                return None;
            }
            let i = *i as usize % p.len();
            p2[i] = !p2[i];
        }
        Alt::Sibling(i, v) => {
            if p.is_empty() {
                return None;
            }
            s2[*i as usize % p.len()] = f(v);
        }
        Alt::Tx(v) => e2.t.0 = f(v),
        Alt::Ty(v) => e2.t.1 = f(v),
        Alt::NegT => e2.t.1 = fp::neg(&e.t.1),
        Alt::Ux(v) => e2.u.0 = f(v),
        Alt::Uy(v) => e2.u.1 = f(v),
        Alt::NegU => e2.u.1 = fp::neg(&e.u.1),
        Alt::OtherT => e2.t = b.t,
        Alt::OtherU => e2.u = b.u,
        Alt::OtherTU => {
            e2.t = b.t;
            e2.u = b.u;
        }
        Alt::OtherS => e2.s = b.s,
        Alt::OtherLeaf => r2 = *rb,
        Alt::Off(k, d) => {
            let d = small(*d as i64);
            let v = match k {
                0 => &mut e2.s,
                1 => &mut e2.t.0,
                2 => &mut e2.t.1,
                3 => &mut e2.u.0,
                4 => &mut e2.u.1,
                _ => &mut r2,
            };
            *v = fp::add(v, &d);
        }
    }
    // still a true statement: the same scalar modulo the order, or the same public key
    let t: Pt = Some(e2.t);
    // no point has x = 0; the circuits read such a pair as the point at infinity
    let uu: Pt = if e2.u.0 == [0; 4] { None } else { Some(e2.u) };
    let key = if SECP.on(&t) && SECP.on(&uu) { xy(&SECP.add(&mulpt(&e2.s, &t), &uu)) } else { ([0; 4], [0; 4]) };
    // (whether a changed root, path or sibling is still right is for the caller, who knows the leaf)
    if key == e.pk && r2 == *rt && p2 == p && s2 == s {
        return None;
    }
    Some(member_ins(&e2, &r2, &p2, &s2))
}
fn leaf_pk(e: &Eff) -> U {
    hash2(&e.pk.0, &e.pk.1)
}
fn leaf_addr(e: &Eff) -> U {
    addr(&e.pk.0, &e.pk.1)
}
fn main() {
    let mut c = Check::new("C26", "a case is a distinct (signatures, tree path, alteration); non-trivial unless the alteration leaves a true statement");
    c.assume("circom 2 semantics as implemented by our interpreter (rs/circ); circomlib templates as re-written in rs/circ/lib");
    c.assume("Keccak-f of rs/shims/keccak1600; Poseidon of rs/refm");
    c.sub("recover", 900, 15000, 8, || sig(), |s: &Sig, o: &mut Obs| {
        let e = eff(s);
        o.class(if e.u == ([0; 4], [0; 4]) { "zero message (U at infinity)" } else { "message" });
        let got = outputs(EFF, "EfficientECDSA", &[], &eff_ins(&e), &["pubKeyX", "pubKeyY"])?;
        same!((got[0][0], got[1][0]), e.pk, "recovered public key");
        Ok(())
    });
    c.sub("recover-points", 700, 12000, 8, || (point(), scalar(), point(), rel(), any::<bool>()), |(t, s, q, r, rel_u): &(Point, Scalar, Point, Rel, bool), o: &mut Obs| {
        // any T, s, U: also s*T = U, s*T = -U, infinity on either side
        let (t, s) = (make(t), sc(s));
        let st = mulpt(&s, &t);
        let uu = if *rel_u {
            match (r, st) {
                (Rel::Neg, p) => SECP.neg(&p),
                (Rel::Same, p) => p,
                (Rel::Inf, _) => None,
                (_, Some(_)) => SECP.add(&st, &make(q)),
                (_, None) => make(q),
            }
        } else {
            make(q)
        };
        let want = SECP.add(&st, &uu);
        o.class(if want.is_none() { "sum at infinity" } else if st == uu { "doubling" } else { "general" });
        let e = Eff { s, t: xy(&t), u: xy(&uu), pk: ([0; 4], [0; 4]) };
        let got = outputs(EFF, "EfficientECDSA", &[], &eff_ins(&e), &["pubKeyX", "pubKeyY"])?;
        same!((got[0][0], got[1][0]), xy(&want), "s*T + U");
        Ok(())
    });
    c.sub("recover-address", 50, 1000, 8, || sig(), |s: &Sig, _o: &mut Obs| {
        let e = eff(s);
        let got = outputs(TO_ADDR, "EfficientECDSAToAddr", &[], &eff_ins(&e), &["addr"])?;
        same!(got[0][0], leaf_addr(&e), "recovered address");
        Ok(())
    });
    c.sub("pubkey", 900, 15000, 8, || (sig(), sig(), prop_oneof![9 => path(6), 1 => path(24)], alt()), |(a, b, (p, s), alt): &(Sig, Sig, (Vec<bool>, Vec<B32>), Alt), o: &mut Obs| {
        let (a, b, s) = (eff(a), eff(b), fs(s));
        let (ra, rb) = (root(&leaf_pk(&a), p, &s), root(&leaf_pk(&b), p, &s));
        ensure!(accepts(PKM, "PubKeyMembership", p.len(), &member_ins(&a, &ra, p, &s))?, "honest statement refused (depth {})", p.len());
        let Some(ins) = alter(alt, &a, &b, &ra, &rb, p, &s) else {
            o.trivial();
            return Ok(());
        };
        if same_root(&ins, &ra, &leaf_pk(&a), p, &s) {
            o.trivial();
            return Ok(());
        }
        ensure!(!accepts(PKM, "PubKeyMembership", p.len(), &ins)?, "altered statement accepted: {:?}", alt);
        Ok(())
    });
    c.sub("address", 40, 800, 8, || (sig(), sig(), path(4), alt()), |(a, b, (p, s), alt): &(Sig, Sig, (Vec<bool>, Vec<B32>), Alt), o: &mut Obs| {
        let (a, b, s) = (eff(a), eff(b), fs(s));
        let (ra, rb) = (root(&leaf_addr(&a), p, &s), root(&leaf_addr(&b), p, &s));
        ensure!(accepts(ADM, "AddrMembership", p.len(), &member_ins(&a, &ra, p, &s))?, "honest statement refused (depth {})", p.len());
        let Some(ins) = alter(alt, &a, &b, &ra, &rb, p, &s) else {
            o.trivial();
            return Ok(());
        };
        if same_root(&ins, &ra, &leaf_addr(&a), p, &s) {
            o.trivial();
            return Ok(());
        }
        ensure!(!accepts(ADM, "AddrMembership", p.len(), &ins)?, "altered statement accepted: {:?}", alt);
        Ok(())
    });
    // members of one tree: every member's signature passes, nobody else's does
    c.sub("tree", 40, 600, 8, || (proptest::collection::vec(sig(), 2..=4), sig(), any::<u8>()), |(members, outsider, i): &(Vec<Sig>, Sig, u8), o: &mut Obs| {
        let m: Vec<Eff> = members.iter().map(eff).collect();
        let out = eff(outsider);
        let mut leaves: Vec<U> = m.iter().map(leaf_pk).collect();
        leaves.resize(4, [0; 4]);
        let l1 = [hash2(&leaves[0], &leaves[1]), hash2(&leaves[2], &leaves[3])];
        let top = hash2(&l1[0], &l1[1]);
        let proof = |i: usize| (vec![i & 1 == 1, i >> 1 == 1], vec![leaves[i ^ 1], l1[(i >> 1) ^ 1]]);
        let i = *i as usize % m.len();
        for (k, e) in m.iter().enumerate() {
            let (p, s) = proof(k);
            ensure!(accepts(PKM, "PubKeyMembership", 2, &member_ins(e, &top, &p, &s))?, "member {} refused", k);
            let (p, s) = proof(i);
            if i != k && e.pk != m[i].pk {
                ensure!(!accepts(PKM, "PubKeyMembership", 2, &member_ins(e, &top, &p, &s))?, "member {} passes as member {}", k, i);
            }
        }
        let (p, s) = proof(i);
        if m.iter().any(|e| e.pk == out.pk) {
            o.trivial();
            return Ok(());
        }
        ensure!(!accepts(PKM, "PubKeyMembership", 2, &member_ins(&out, &top, &p, &s))?, "an outsider passes as member {}", i);
        // a signature of one member made into another message's statement
        let mix = Eff { s: m[i].s, ..m[(i + 1) % m.len()].clone() };
        if mix.s != m[(i + 1) % m.len()].s {
            let (p, s) = proof((i + 1) % m.len());
            ensure!(!accepts(PKM, "PubKeyMembership", 2, &member_ins(&mix, &top, &p, &s))?, "somebody else's s passes");
        }
        Ok(())
    });
    // the deployed instances, at their own depth
    c.sub("deployed", 6, 60, 6, || (sig(), proptest::collection::vec((any::<bool>(), fe()), 20), any::<bool>(), fe()), |(a, ps, which, r): &(Sig, Vec<(bool, B32)>, bool, B32), _o: &mut Obs| {
        let a = eff(a);
        let (file, leaf) = if *which { ("instances/pubkey_membership.circom", leaf_pk(&a)) } else { ("instances/addr_membership.circom", leaf_addr(&a)) };
        let l = lib(file)?;
        let (_, t) = l.compile_main()?;
        let n = t.sig("siblings").len();
        let p: Vec<bool> = ps.iter().cycle().take(n).map(|x| x.0).collect();
        let s: Vec<U> = ps.iter().cycle().take(n).map(|x| f(&x.1)).collect();
        let good = root(&leaf, &p, &s);
        for (rt, ok) in [(good, true), (f(r), good == f(r))] {
            let w = witness(&l, &t, &member_ins(&a, &rt, &p, &s), &mut Honest)?;
            same!(broken(&t, &w).is_none(), ok, "{} satisfied", file);
        }
        Ok(())
    });
    c.finish();
}
/// Whether the altered inputs still open the (unaltered) root from the (unaltered) key.
fn same_root(ins: &In, root_: &U, leaf: &U, p: &[bool], s: &[U]) -> bool {
    let g = |n: &str| ins.iter().find(|x| x.0 == n).unwrap().1.clone();
    let bits: Vec<bool> = g("pathIndices").iter().map(|x| x[0] == 1).collect();
    let (r2, s2) = (g("root")[0], g("siblings"));
    let moved = bits != p || s2 != s || r2 != *root_;
    moved && root(leaf, &bits, &s2) == r2
}
