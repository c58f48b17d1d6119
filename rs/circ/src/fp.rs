//! Integers modulo p = 2^256 - 2^32 - 977, fast enough to evaluate whole circuits.
//! (The check binaries compare it against the slow model in `refm` on generated operands.)
use refm::{addc, lt, subb, P, U};

const C: u64 = 0x1_0000_03D1; // 2^256 mod p
pub const ZERO: U = [0; 4];
pub const ONE: U = [1, 0, 0, 0];

#[inline]
pub fn red(a: U) -> U {
    if lt(&a, &P) {
        a
    } else {
        subb(&a, &P).0
    }
}
#[inline]
pub fn add(a: &U, b: &U) -> U {
    let (s, c) = addc(a, b);
    if c {
        addc(&s, &[C, 0, 0, 0]).0
    } else {
        red(s)
    }
}
#[inline]
pub fn sub(a: &U, b: &U) -> U {
    let (s, c) = subb(a, b);
    if c {
        subb(&s, &[C, 0, 0, 0]).0
    } else {
        s
    }
}
#[inline]
pub fn neg(a: &U) -> U {
    sub(&ZERO, a)
}
pub fn mul(a: &U, b: &U) -> U {
    if *a == ZERO || *b == ZERO {
        return ZERO;
    }
    if *a == ONE {
        return *b;
    }
    if *b == ONE {
        return *a;
    }
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += w[i + j] as u128 + a[i] as u128 * b[j] as u128;
            w[i + j] = c as u64;
            c >>= 64;
        }
        w[i + 4] = c as u64;
    }
    // fold the high half: hi * 2^256 = hi * C
    let mut o = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += w[i] as u128 + w[i + 4] as u128 * C as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    // c < 2^34
    let t = c * C as u128;
    let (mut r, k) = addc(&o, &[t as u64, (t >> 64) as u64, 0, 0]);
    if k {
        r = addc(&r, &[C, 0, 0, 0]).0;
    }
    red(r)
}
pub fn pow(a: &U, e: &U) -> U {
    let mut r = ONE;
    for i in (0..256).rev() {
        r = mul(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a);
        }
    }
    r
}
/// 1/a, with 1/0 = 0 as in circom's witness calculators.
pub fn inv(a: &U) -> U {
    if *a == ZERO || *a == ONE {
        return *a;
    }
    // a^(p-2) by an addition chain over runs of ones: 223 ones, 0, 22 ones, 0000, 1, 0, 11, 0, 1
    fn sqn(a: &U, n: u32) -> U {
        let mut r = *a;
        for _ in 0..n {
            r = mul(&r, &r);
        }
        r
    }
    let x2 = mul(&sqn(a, 1), a);
    let x3 = mul(&sqn(&x2, 1), a);
    let x6 = mul(&sqn(&x3, 3), &x3);
    let x9 = mul(&sqn(&x6, 3), &x3);
    let x11 = mul(&sqn(&x9, 2), &x2);
    let x22 = mul(&sqn(&x11, 11), &x11);
    let x44 = mul(&sqn(&x22, 22), &x22);
    let x88 = mul(&sqn(&x44, 44), &x44);
    let x176 = mul(&sqn(&x88, 88), &x88);
    let x220 = mul(&sqn(&x176, 44), &x44);
    let x223 = mul(&sqn(&x220, 3), &x3);
    let t = mul(&sqn(&x223, 23), &x22);
    let t = mul(&sqn(&t, 5), a);
    let t = mul(&sqn(&t, 3), &x2);
    mul(&sqn(&t, 2), a)
}
fn half() -> U {
    shr(&P, 1)
}
fn neg_p(a: &U) -> bool {
    lt(&half(), a)
}
pub fn shr(a: &U, k: u32) -> U {
    if k >= 256 {
        return ZERO;
    }
    let (w, b) = ((k / 64) as usize, k % 64);
    let mut o = ZERO;
    for i in 0..4 - w {
        o[i] = a[i + w] >> b;
        if b > 0 && i + w + 1 < 4 {
            o[i] |= a[i + w + 1] << (64 - b);
        }
    }
    o
}
pub fn shl(a: &U, k: u32) -> U {
    if k >= 256 {
        return ZERO;
    }
    let (w, b) = ((k / 64) as usize, k % 64);
    let mut o = ZERO;
    for i in w..4 {
        o[i] = a[i - w] << b;
        if b > 0 && i > w {
            o[i] |= a[i - w - 1] >> (64 - b);
        }
    }
    o
}
fn small(a: &U) -> Option<u32> {
    if a[1] | a[2] | a[3] == 0 && a[0] < 1 << 20 {
        Some(a[0] as u32)
    } else {
        None
    }
}
fn shift(a: &U, k: &U, left: bool) -> U {
    let (k, left) = if neg_p(k) { (neg(k), !left) } else { (*k, left) };
    match small(&k) {
        None => ZERO,
        Some(k) => red(if left { shl(a, k) } else { shr(a, k) }),
    }
}
fn divmod(a: &U, b: &U) -> (U, U) {
    let (mut q, mut r) = (ZERO, ZERO);
    for i in (0..256).rev() {
        let top = r[3] >> 63;
        r = shl(&r, 1);
        r[0] |= a[i / 64] >> (i % 64) & 1;
        if top == 1 || !lt(&r, b) {
            r = subb(&r, b).0;
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, r)
}
fn b(x: bool) -> U {
    [x as u64, 0, 0, 0]
}
/// a < b with values above p/2 read as negative, as circom compares.
fn slt(a: &U, c: &U) -> bool {
    match (neg_p(a), neg_p(c)) {
        (true, false) => true,
        (false, true) => false,
        _ => lt(a, c),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add, Sub, Mul, Div, IDiv, Mod, Pow, BAnd, BOr, BXor, Shl, Shr, Eq, Ne, Lt, Gt, Le, Ge, And, Or,
}
pub fn bin(op: Op, x: &U, y: &U) -> Result<U, String> {
    use Op::*;
    let z = |f: fn(u64, u64) -> u64| red([f(x[0], y[0]), f(x[1], y[1]), f(x[2], y[2]), f(x[3], y[3])]);
    Ok(match op {
        Add => add(x, y),
        Sub => sub(x, y),
        Mul => mul(x, y),
        Div => mul(x, &inv(y)),
        IDiv | Mod if *y == ZERO => return Err("integer division by zero".into()),
        IDiv => divmod(x, y).0,
        Mod => divmod(x, y).1,
        Pow => pow(x, y),
        BAnd => z(|a, b| a & b),
        BOr => z(|a, b| a | b),
        BXor => z(|a, b| a ^ b),
        Shl => shift(x, y, true),
        Shr => shift(x, y, false),
        Eq => b(x == y),
        Ne => b(x != y),
        Lt => b(slt(x, y)),
        Gt => b(slt(y, x)),
        Le => b(!slt(y, x)),
        Ge => b(!slt(x, y)),
        And => b(*x != ZERO && *y != ZERO),
        Or => b(*x != ZERO || *y != ZERO),
    })
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Un {
    Neg, Not, Compl,
}
pub fn un(op: Un, x: &U) -> U {
    match op {
        Un::Neg => neg(x),
        Un::Not => b(*x == ZERO),
        Un::Compl => red([!x[0], !x[1], !x[2], !x[3]]),
    }
}
/// Decimal or 0x-hexadecimal literal, reduced modulo p.
pub fn parse(s: &str) -> U {
    let mut r = ZERO;
    let (digits, base) = match s.strip_prefix("0x").or(s.strip_prefix("0X")) {
        Some(h) => (h, 16),
        None => (s, 10),
    };
    for c in digits.chars() {
        r = add(&mul(&r, &[base as u64, 0, 0, 0]), &[c.to_digit(base).unwrap() as u64, 0, 0, 0]);
    }
    r
}
