//! Keccak-f[1600], the sponge, Keccak-256 and SHAKE256 (own implementation, checked against Python's hashlib).
const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808A, 0x8000000080008000, 0x000000000000808B,
    0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008A, 0x0000000000000088,
    0x0000000080008009, 0x000000008000000A, 0x000000008000808B, 0x800000000000008B, 0x8000000000008089,
    0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800A, 0x800000008000000A,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROTC: [u32; 24] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44];
const PIL: [usize; 24] = [10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1];
pub fn f1600(a: &mut [u64; 25]) {
    for rc in RC {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let t = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= t;
            }
        }
        let mut last = a[1];
        for i in 0..24 {
            let t = a[PIL[i]];
            a[PIL[i]] = last.rotate_left(ROTC[i]);
            last = t;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}
pub fn f1600_bytes(s: &mut [u8; 200]) {
    let mut a = [0u64; 25];
    for i in 0..25 {
        a[i] = u64::from_le_bytes(s[8 * i..8 * i + 8].try_into().unwrap());
    }
    f1600(&mut a);
    for i in 0..25 {
        s[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes());
    }
}
#[derive(Clone)]
pub struct Sponge {
    s: [u8; 200],
    rate: usize,
    pos: usize,
    pad: u8,
    squeezing: bool,
}
impl Sponge {
    pub fn new(rate: usize, pad: u8) -> Self {
        Sponge { s: [0; 200], rate, pos: 0, pad, squeezing: false }
    }
    pub fn absorb(&mut self, d: &[u8]) {
        assert!(!self.squeezing);
        for b in d {
            self.s[self.pos] ^= b;
            self.pos += 1;
            if self.pos == self.rate {
                f1600_bytes(&mut self.s);
                self.pos = 0;
            }
        }
    }
    pub fn squeeze(&mut self, out: &mut [u8]) {
        if !self.squeezing {
            self.s[self.pos] ^= self.pad;
            self.s[self.rate - 1] ^= 0x80;
            f1600_bytes(&mut self.s);
            self.pos = 0;
            self.squeezing = true;
        }
        for b in out.iter_mut() {
            if self.pos == self.rate {
                f1600_bytes(&mut self.s);
                self.pos = 0;
            }
            *b = self.s[self.pos];
            self.pos += 1;
        }
    }
}
pub fn shake256(d: &[u8], n: usize) -> Vec<u8> {
    let mut s = Sponge::new(136, 0x1f);
    s.absorb(d);
    let mut o = vec![0; n];
    s.squeeze(&mut o);
    o
}
pub fn keccak256(d: &[u8]) -> [u8; 32] {
    let mut s = Sponge::new(136, 0x01);
    s.absorb(d);
    let mut o = [0; 32];
    s.squeeze(&mut o);
    o
}
#[cfg(test)]
mod t {
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hex(&super::keccak256(b"")), "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470");
        assert_eq!(hex(&super::shake256(b"", 32)), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f");
        let d = vec![0xa5u8; 300];
        println!("{}", hex(&super::shake256(&d, 300)));
    }
}
