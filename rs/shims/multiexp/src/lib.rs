//! Stand-in for multiexp 0.2: bucketed (Pippenger) multi-scalar multiplication.
use ff::PrimeFieldBits;
use group::Group;
pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits,
{
    let bits: Vec<Vec<bool>> =
        pairs.iter().map(|(s, _)| s.to_le_bits().iter().map(|b| *b).collect()).collect();
    let nbits = bits.iter().map(|b| b.len()).max().unwrap_or(0);
    let w = match pairs.len() {
        0..=3 => 3,
        4..=15 => 4,
        16..=63 => 5,
        64..=255 => 6,
        _ => 8,
    };
    let nwin = (nbits + w - 1) / w;
    let mut acc = G::identity();
    for win in (0..nwin).rev() {
        for _ in 0..w {
            acc = acc.double();
        }
        let mut buckets: Vec<Option<G>> = vec![None; 1 << w];
        for (i, (_, p)) in pairs.iter().enumerate() {
            let mut d = 0usize;
            for k in 0..w {
                if bits[i].get(win * w + k).copied().unwrap_or(false) {
                    d |= 1 << k;
                }
            }
            if d != 0 {
                buckets[d] = Some(match buckets[d] {
                    Some(b) => b + p,
                    None => *p,
                });
            }
        }
        let mut run = G::identity();
        let mut sum = G::identity();
        let mut started = false;
        for b in buckets.iter().skip(1).rev() {
            if let Some(b) = b {
                run += b;
                started = true;
            }
            if started {
                sum += run;
            }
        }
        acc += sum;
    }
    acc
}
