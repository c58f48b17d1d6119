//! Generators shared by the checks.
use crate::B32;
use proptest::prelude::*;

fn limb() -> impl Strategy<Value = u64> {
    prop_oneof![
        3 => any::<u64>(),
        2 => Just(0u64),
        2 => Just(u64::MAX),
        1 => Just(1u64),
        1 => Just(u64::MAX - 1),
        1 => Just(1u64 << 63),
        1 => Just(0xffffffff00000000u64),
        1 => (0u32..64).prop_map(|k| 1u64 << k),
    ]
}
fn limbs_le(l: [u64; 4]) -> B32 {
    let mut b = [0u8; 32];
    for i in 0..4 {
        b[8 * i..8 * i + 8].copy_from_slice(&l[i].to_le_bytes());
    }
    B32(b)
}
fn add_small(mut b: [u8; 32], d: i64) -> [u8; 32] {
    // b + d modulo 2^256
    let mut c = d as i128;
    for x in b.iter_mut() {
        let t = *x as i128 + (c & 0xff);
        c >>= 8;
        *x = (t & 0xff) as u8;
        c += t >> 8;
    }
    b
}
/// Any 256-bit string, with weight on limb patterns and on the neighbourhoods of 0, `m` and 2^256.
pub fn b256(m: [u8; 32]) -> impl Strategy<Value = B32> + Clone {
    prop_oneof![
        4 => any::<[u8; 32]>().prop_map(B32),
        4 => [limb(), limb(), limb(), limb()].prop_map(limbs_le),
        1 => (0u64..1 << 20).prop_map(|x| limbs_le([x, 0, 0, 0])),
        1 => (0i64..6).prop_map(|x| limbs_le([x as u64, 0, 0, 0])),
        1 => (0usize..256).prop_map(|k| { let mut b = [0u8; 32]; b[k / 8] = 1 << (k % 8); B32(b) }),
        1 => (0usize..256, -3i64..4).prop_map(|(k, d)| { let mut b = [0u8; 32]; b[k / 8] = 1 << (k % 8); B32(add_small(b, d)) }),
        2 => (-40i64..40).prop_map(move |d| B32(add_small(m, d))),
        1 => (-(1i64 << 34)..(1i64 << 34)).prop_map(move |d| B32(add_small(m, d))),
        1 => (-40i64..0).prop_map(|d| B32(add_small([0; 32], d))),
        1 => (-(1i64 << 34)..0).prop_map(|d| B32(add_small([0; 32], d))),
    ]
}
pub fn lt(a: &[u8; 32], m: &[u8; 32]) -> bool {
    for i in (0..32).rev() {
        if a[i] != m[i] {
            return a[i] < m[i];
        }
    }
    false
}
pub fn sub(a: &[u8; 32], m: &[u8; 32]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let mut br = 0i32;
    for i in 0..32 {
        let t = a[i] as i32 - m[i] as i32 - br;
        br = (t < 0) as i32;
        o[i] = (t & 0xff) as u8;
    }
    o
}
/// A canonical element below `m` (2^255 < m < 2^256), edge-heavy.
pub fn elem(m: [u8; 32]) -> impl Strategy<Value = B32> + Clone {
    b256(m).prop_map(move |b| if lt(&b.0, &m) { b } else { B32(sub(&b.0, &m)) })
}
