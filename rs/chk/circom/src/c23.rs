//! C23: the elliptic-curve circuits against the group law.
include!("common.rs");

fn add_inputs<'a>(p: &Pt, q: &Pt) -> In<'a> {
    let (p, q) = (xy(p), xy(q));
    vec![("xP", vec![p.0]), ("yP", vec![p.1]), ("xQ", vec![q.0]), ("yQ", vec![q.1])]
}
fn out2(v: &[Vec<U>]) -> (U, U) {
    (v[0][0], v[1][0])
}
fn main() {
    let mut c = Check::new("C23", "a case is a distinct (points, scalar); every case evaluates a circuit, checks all its constraints and compares all outputs");
    c.assume("circom 2 semantics as implemented by our interpreter (rs/circ); circomlib templates as re-written in rs/circ/lib");
    self_test(&mut c);
    c.sub("add-complete", 12000, 200000, 8, || (point(), rel(), 0u8..8), |(p, r, sw): &(Point, Rel, u8), o: &mut Obs| {
        let (mut p, mut q) = pair(p, r);
        if sw & 1 == 1 {
            std::mem::swap(&mut p, &mut q);
        }
        if *sw == 6 {
            p = None; // infinity on one side, and with Rel::Inf on both
        }
        o.class(match (p, q) {
            (None, None) => "both at infinity",
            (None, _) => "first at infinity",
            (_, None) => "second at infinity",
            (Some(a), Some(b)) if a == b => "equal points",
            (Some(a), Some(b)) if a.0 == b.0 => "opposite points",
            (Some(a), Some(b)) if a.1 == b.1 => "same y",
            (Some(a), Some(b)) if fp::add(&a.1, &b.1) == [0; 4] => "opposite y, other x",
            (Some(a), Some(b)) if refm::bits(&fp::add(&a.1, &b.1)) < 4 => "y coordinates with a small sum",
            _ => "general",
        });
        let got = outputs(ADD, "Secp256k1AddComplete", &[], &add_inputs(&p, &q), &["outX", "outY"])?;
        same!(out2(&got), xy(&SECP.add(&p, &q)), "P + Q");
        Ok(())
    });
    c.sub("add-incomplete", 6000, 100000, 8, || (point(), rel()), |(p, r): &(Point, Rel), o: &mut Obs| {
        let (p, q) = pair(p, r);
        let (Some(a), Some(b)) = (p, q) else {
            o.trivial();
            return Ok(());
        };
        if a.0 == b.0 {
            o.trivial(); // documented: only for different x
            return Ok(());
        }
        let got = outputs(ADD, "Secp256k1AddIncomplete", &[], &add_inputs(&p, &q), &["outX", "outY"])?;
        same!(out2(&got), xy(&SECP.add(&p, &q)), "P + Q");
        Ok(())
    });
    c.sub("double", 4000, 60000, 8, || point(), |p: &Point, _o: &mut Obs| {
        let p = make(p);
        let a = xy(&p);
        let got = outputs(DOUBLE, "Secp256k1Double", &[], &vec![("xP", vec![a.0]), ("yP", vec![a.1])], &["outX", "outY"])?;
        same!(out2(&got), xy(&SECP.dbl(&p)), "2P");
        Ok(())
    });
    c.sub("scalar", 20000, 400000, 8, || scalar(), |s: &Scalar, o: &mut Obs| {
        let s = sc(s);
        let k = FN.add(&mod_q(&s), &mod_q(&tq()));
        o.class(if refm::lt(&s, &N) { "below the order" } else { "at or above the order" });
        let got = outputs(MUL, "K", &[], &vec![("s", vec![s])], &["out"])?;
        let want: Vec<U> = (0..256).map(|i| u(refm::bit(&k, i) as u64)).collect();
        let ix = (0..256).filter(|i| got[0][*i] != want[*i]).count();
        ensure!(ix == 0, "K({:x?}): {} bits differ from (s + tQ) mod q", s, ix);
        Ok(())
    });
    c.sub("mul", 3000, 60000, 8, || (scalar(), point()), |(s, p): &(Scalar, Point), o: &mut Obs| {
        let (s, p) = (sc(s), make(p));
        let want = mulpt(&s, &p);
        o.class(if want.is_none() { "result at infinity" } else { "finite result" });
        let a = xy(&p);
        let got = outputs(MUL, "Secp256k1Mul", &[], &vec![("scalar", vec![s]), ("xP", vec![a.0]), ("yP", vec![a.1])], &["outX", "outY"])?;
        same!(out2(&got), xy(&want), "s*P for s = {:x?}", s);
        Ok(())
    });
    c.sub("small-scalars", 400, 4000, 8, || (0u64..300, 0u8..4, point()), |(k, b, p): &(u64, u8, Point), _o: &mut Obs| {
        let base = [[0; 4], N, refm::subb(&P, &u(300)).0, refm::subb(&N, &u(300)).0][*b as usize];
        let s = fp::red(refm::addc(&base, &u(*k)).0);
        let p = make(p);
        let a = xy(&p);
        let got = outputs(MUL, "Secp256k1Mul", &[], &vec![("scalar", vec![s]), ("xP", vec![a.0]), ("yP", vec![a.1])], &["outX", "outY"])?;
        same!(out2(&got), xy(&mulpt(&s, &p)), "s*P for s = {:x?}", s);
        Ok(())
    });
    c.finish();
}
