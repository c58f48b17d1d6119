// Shared by the encoding checks.
macro_rules! encoding_suite {
    ($c:ident, $T:ty, $F:expr) => {{
        let m = to_le(&$F.m);
        $c.sub("from_bytes", 40_000, 2_000_000, 8, move || gen::b256(m), move |b, o: &mut Obs| {
            let r: CtOption<$T> = <$T>::from_bytes(&b.0);
            let ok = lt(&le(&b.0), &$F.m);
            o.class(if ok { "canonical" } else { "not canonical" });
            same!(bool::from(r.is_some()), ok, "acceptance of {:?}", b);
            if ok {
                let x = r.unwrap();
                same!(x.to_bytes(), b.0, "round trip");
                same!(<[u8; 32]>::from(&x), b.0, "conversion to bytes");
                same!(x, <$T>::from_raw(le(&b.0)), "agrees with from_raw");
            }
            Ok(())
        });
        $c.sub("reductions", 30_000, 1_500_000, 8, move || (gen::b256(m), gen::b256(m), any::<u64>()), move |(a, b, k), o: &mut Obs| {
            let ua = le(&a.0);
            if !lt(&ua, &$F.m) { o.class("raw >= modulus") }
            same!(<$T>::from_raw(ua).to_bytes(), to_le(&$F.red(&ua)), "from_raw");
            let mut w = [0u8; 64];
            w[..32].copy_from_slice(&a.0);
            w[32..].copy_from_slice(&b.0);
            same!(<$T>::from_bytes_wide(&w).to_bytes(), to_le(&$F.from_le_bytes(&w)), "from_bytes_wide");
            same!(<$T>::from(*k).to_bytes(), to_le(&u(*k)), "from u64");
            same!(<$T>::from(*k >> (k % 64)).to_bytes(), to_le(&u(*k >> (k % 64))), "from small u64");
            Ok(())
        });
        $c.sub("serde", 10_000, 500_000, 8, move || (gen::elem(m), gen::b256(m)), move |(a, raw), o: &mut Obs| {
            let x = <$T>::from_bytes(&a.0).unwrap();
            let bin = bincode::serialize(&x).unwrap();
            let y: $T = bincode::deserialize(&bin).map_err(|e| e.to_string())?;
            same!(y.to_bytes(), a.0, "bincode round trip");
            same!(bincode::serialize(&y).unwrap(), bin, "bincode is stable");
            let js = vk::serde_json::to_string(&x).unwrap();
            let y: $T = vk::serde_json::from_str(&js).map_err(|e| e.to_string())?;
            same!(y.to_bytes(), a.0, "json round trip");
            // the 32 bytes of the encoding are the little-endian value; larger values are reduced
            let n = bin.len();
            ensure!(n >= 32 && bin[n - 32..] == a.0, "serialised form is not the canonical encoding");
            let mut alt = bin.clone();
            alt[n - 32..].copy_from_slice(&raw.0);
            let want = $F.red(&le(&raw.0));
            if want != le(&raw.0) { o.class("serialised value >= modulus") }
            match no_panic(|| bincode::deserialize::<$T>(&alt)) {
                Ok(Ok(z)) => same!(z.to_bytes(), to_le(&want), "decoding {:?}", raw),
                _ => ensure!(want != le(&raw.0), "canonical encoding {:?} refused", raw),
            }
            Ok(())
        });
    }};
}
