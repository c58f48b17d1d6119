//! C25: the Keccak and address circuits against Keccak-256.
include!("common.rs");
include!("sigs.rs");
use proptest::collection::vec;

fn bits(v: &U, n: usize) -> Vec<U> {
    (0..n).map(|i| u(refm::bit(v, i) as u64)).collect()
}
fn any256() -> impl Strategy<Value = B32> + Clone {
    vk::gen::b256(le32(&P))
}
fn pattern(n: usize) -> impl Strategy<Value = Vec<u8>> + Clone {
    prop_oneof![
        4 => vec(any::<u8>(), n),
        1 => any::<u8>().prop_map(move |b| vec![b; n]),
        1 => (0..8 * n.max(1)).prop_map(move |k| { let mut v = vec![0u8; n]; if n > 0 { v[k / 8] = 1 << (k % 8) } v }),
        1 => (0..8 * n.max(1)).prop_map(move |k| { let mut v = vec![255u8; n]; if n > 0 { v[k / 8] ^= 1 << (k % 8) } v }),
    ]
}
fn main() {
    let mut c = Check::new("C25", "a case is a distinct (length, message) or public key; every case evaluates the circuit, checks all its constraints and compares all output bits");
    c.assume("circom 2 semantics as implemented by our interpreter (rs/circ); circomlib templates as re-written in rs/circ/lib");
    c.assume("Keccak-f of rs/shims/keccak1600 (checked against Python's hashlib)");
    c.sub("address", 110, 2500, 8, || (any256(), any256()), |(x, y): &(B32, B32), o: &mut Obs| {
        let (x, y) = (f(x), f(y));
        if x[3] >> 56 == 0 || y[3] >> 56 == 0 {
            o.class("coordinate with a zero top byte");
        }
        let mut b = bits(&y, 256);
        b.extend(bits(&x, 256));
        let got = outputs(ETH, "PubkeyToAddress", &[], &vec![("pubkeyBits", b)], &["address"])?;
        same!(got[0][0], addr(&x, &y), "address of ({:x?}, {:x?})", x, y);
        Ok(())
    });
    c.sub("keccak-bytes", 90, 2000, 8, || (prop_oneof![4 => 0usize..=135, 1 => Just(0usize), 1 => Just(135usize), 1 => Just(64usize)], prop_oneof![3 => Just(256usize), 1 => 1usize..=1600, 1 => Just(1600usize)])
        .prop_flat_map(|(n, m)| (Just(n), Just(m), pattern(n))), |(n, m, msg): &(usize, usize, Vec<u8>), o: &mut Obs| {
        o.class(if *n == 0 { "empty" } else if *n == 135 { "full block" } else { "other" });
        let b: Vec<bool> = (0..8 * n).map(|i| msg[i / 8] >> (i % 8) & 1 == 1).collect();
        let ins = b.iter().map(|x| u(*x as u64)).collect();
        let got = outputs(KECCAK, "Keccak", &[8 * *n as u64, *m as u64], &vec![("in", ins)], &["out"])?;
        let want: Vec<U> = keccak_bits(&b, *m).iter().map(|x| u(*x as u64)).collect();
        same!(got[0], want, "Keccak({}, {})", 8 * n, m);
        Ok(())
    });
    c.sub("keccak-bits", 40, 800, 8, || (prop_oneof![3 => 1usize..=1080, 1 => 1073usize..=1080]).prop_flat_map(|n| (Just(n), vec(any::<bool>(), n))), |(n, b): &(usize, Vec<bool>), _o: &mut Obs| {
        let ins = b.iter().map(|x| u(*x as u64)).collect();
        let got = outputs(KECCAK, "Keccak", &[*n as u64, 256], &vec![("in", ins)], &["out"])?;
        let want: Vec<U> = keccak_bits(b, 256).iter().map(|x| u(*x as u64)).collect();
        same!(got[0], want, "Keccak({}, 256)", n);
        Ok(())
    });
    c.sub("flatten", 1500, 20000, 8, || (1u64..=255).prop_flat_map(|n| { let lo = (256 + n - 1) / n; (Just(n), lo..lo + 3, any256(), any256(), any::<u16>()) }), |(n, k, x, y, bad): &(u64, u64, B32, B32, u16), o: &mut Obs| {
        let (x, y) = (f(x), f(y));
        let chunk = |v: &U, i: u64| -> U {
            let mut r = [0u64; 4];
            for j in 0..*n {
                let b = i * n + j;
                if b < 256 && refm::bit(v, b as usize) {
                    r[j as usize / 64] |= 1 << (j % 64);
                }
            }
            r
        };
        let mut ch: Vec<U> = (0..*k).map(|i| chunk(&x, i)).chain((0..*k).map(|i| chunk(&y, i))).collect();
        ensure!(ch.iter().all(|c| refm::lt(c, &P)), "chunks are field elements");
        let got = outputs(ETH, "FlattenPubkey", &[*n, *k], &vec![("chunkedPubkey", ch.clone())], &["pubkeyBits"])?;
        let mut want = bits(&y, 256);
        want.extend(bits(&x, 256));
        same!(got[0], want, "FlattenPubkey({}, {})", n, k);
        // a chunk that does not fit is refused
        let i = *bad as usize % ch.len();
        let mut over = [0u64; 4];
        over[*n as usize / 64] = 1 << (n % 64);
        ch[i] = refm::addc(&ch[i], &over).0;
        if refm::lt(&ch[i], &P) {
            o.class("oversized chunk");
            let r = outputs(ETH, "FlattenPubkey", &[*n, *k], &vec![("chunkedPubkey", ch)], &["pubkeyBits"]);
            ensure!(r.is_err(), "a chunk of more than {} bits was accepted", n);
        }
        Ok(())
    });
    c.finish();
}
