// Honest statements: ECDSA signatures, Merkle paths and the circuits' inputs for them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sig {
    d: B32,
    k: B32,
    m: B32,
    /// Use the nonce's point as it is, or with a chosen x coordinate sign.
    odd: bool,
}
fn order_elem() -> impl Strategy<Value = B32> + Clone {
    elem(le32(&N))
}
fn sig() -> impl Strategy<Value = Sig> + Clone {
    (order_elem(), order_elem(), prop_oneof![9 => order_elem(), 1 => Just(B32([0; 32]))], any::<bool>())
        .prop_map(|(d, k, m, odd)| Sig { d, k, m, odd })
}
#[derive(Clone, Debug)]
struct Eff {
    s: U,
    t: (U, U),
    u: (U, U),
    pk: (U, U),
}
fn nz(a: U) -> U {
    if a == [0; 4] {
        u(1)
    } else {
        a
    }
}
/// The effective-ECDSA form of an honest signature: T = r^-1 R, U = -(m r^-1) G, s.
fn eff(s: &Sig) -> Eff {
    let g = refm::ec::g_secp();
    let (d, mut k, m) = (nz(f(&s.d)), nz(f(&s.k)), f(&s.m));
    if s.odd {
        k = FN.neg(&k);
    }
    loop {
        let r_pt = mulpt(&k, &g);
        let r = FN.red(&xy(&r_pt).0);
        let sv = FN.mul(&FN.inv(&k), &FN.add(&m, &FN.mul(&r, &d)));
        if r == [0; 4] || sv == [0; 4] {
            k = FN.add(&k, &u(1));
            continue;
        }
        let ri = FN.inv(&r);
        let t = mulpt(&ri, &r_pt);
        let uu = SECP.neg(&mulpt(&FN.mul(&m, &ri), &g));
        let pk = mulpt(&d, &g);
        return Eff { s: sv, t: xy(&t), u: xy(&uu), pk: xy(&pk) };
    }
}
/// s, T and U such that s*T + U is a given point.
fn eff_for(pk: &Pt, s: &U, t: &Pt) -> Eff {
    let uu = SECP.add(pk, &SECP.neg(&mulpt(s, t)));
    Eff { s: *s, t: xy(t), u: xy(&uu), pk: xy(pk) }
}
fn eff_ins<'a>(e: &Eff) -> In<'a> {
    vec![("s", vec![e.s]), ("Tx", vec![e.t.0]), ("Ty", vec![e.t.1]), ("Ux", vec![e.u.0]), ("Uy", vec![e.u.1])]
}
fn pa() -> &'static refm::poseidon::Params {
    static P: OnceLock<refm::poseidon::Params> = OnceLock::new();
    P.get_or_init(refm::poseidon::params)
}
/// Poseidon with the reference constants, over the quick arithmetic (compared with refm in C24).
fn hash2(a: &U, b: &U) -> U {
    let pa = pa();
    let sbox = |x: &U| {
        let y = fp::mul(x, x);
        fp::mul(&fp::mul(&y, &y), x)
    };
    let mut s = [u(3), *a, *b];
    for r in 0..64 {
        for i in 0..3 {
            s[i] = fp::add(&s[i], &pa.rc[3 * r + i]);
            if i == 0 || r < 4 || r >= 60 {
                s[i] = sbox(&s[i]);
            }
        }
        let mut o = [[0u64; 4]; 3];
        for i in 0..3 {
            for j in 0..3 {
                o[i] = fp::add(&o[i], &fp::mul(&pa.mds[i][j], &s[j]));
            }
        }
        s = o;
    }
    s[1]
}
fn root(leaf: &U, path: &[bool], sib: &[U]) -> U {
    let mut h = *leaf;
    for (b, s) in path.iter().zip(sib) {
        h = if *b { hash2(s, &h) } else { hash2(&h, s) };
    }
    h
}
fn bitsel(path: &[bool]) -> Vec<U> {
    path.iter().map(|b| u(*b as u64)).collect()
}
fn member_ins<'a>(e: &Eff, root: &U, path: &[bool], sib: &[U]) -> In<'a> {
    let mut v = eff_ins(e);
    v.push(("root", vec![*root]));
    v.push(("pathIndices", bitsel(path)));
    v.push(("siblings", sib.to_vec()));
    v
}
/// Keccak over bits (least significant bit of each byte first), rate 1088, domain byte 0x01.
fn keccak_bits(msg: &[bool], out: usize) -> Vec<bool> {
    let mut b: Vec<bool> = msg.to_vec();
    b.push(true);
    b.resize(1088, false);
    b[1087] = true;
    let mut st = [0u64; 25];
    for (i, x) in b.iter().enumerate() {
        if *x {
            st[i / 64] |= 1 << (i % 64);
        }
    }
    keccak1600::f1600(&mut st);
    (0..out).map(|i| st[i / 64] >> (i % 64) & 1 == 1).collect()
}
fn keccak256(data: &[u8]) -> [u8; 32] {
    let bits: Vec<bool> = (0..8 * data.len()).map(|i| data[i / 8] >> (i % 8) & 1 == 1).collect();
    let mut o = [0u8; 32];
    for (i, x) in keccak_bits(&bits, 256).iter().enumerate() {
        o[i / 8] |= (*x as u8) << (i % 8);
    }
    o
}
fn addr(x: &U, y: &U) -> U {
    let mut k = [0u8; 64];
    k[..32].copy_from_slice(&refm::to_be(x));
    k[32..].copy_from_slice(&refm::to_be(y));
    let h = keccak256(&k);
    let mut o = [0u8; 32];
    o[12..].copy_from_slice(&h[12..]);
    refm::be(&o)
}
fn path(max: usize) -> impl Strategy<Value = (Vec<bool>, Vec<B32>)> + Clone {
    (0..=max).prop_flat_map(|n| (proptest::collection::vec(any::<bool>(), n), proptest::collection::vec(fe(), n)))
}
fn fs(v: &[B32]) -> Vec<U> {
    v.iter().map(f).collect()
}
