//! Stand-in for merlin 3.0.0: STROBE-128 transcripts, byte for byte, plus an optional
//! per-thread log of every operation, which the checks read.
use std::cell::RefCell;

const STROBE_R: u8 = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 1 << 1;
const FLAG_C: u8 = 1 << 2;
const FLAG_T: u8 = 1 << 3;
const FLAG_M: u8 = 1 << 4;
const FLAG_K: u8 = 1 << 5;

#[derive(Clone)]
pub struct Strobe128 {
    state: [u8; 200],
    pos: u8,
    pos_begin: u8,
    cur_flags: u8,
}
impl Strobe128 {
    pub fn new(protocol_label: &[u8]) -> Strobe128 {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, STROBE_R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        keccak1600::f1600_bytes(&mut st);
        let mut s = Strobe128 { state: st, pos: 0, pos_begin: 0, cur_flags: 0 };
        s.meta_ad(protocol_label, false);
        s
    }
    pub fn meta_ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_M | FLAG_A, more);
        self.absorb(data);
    }
    pub fn ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A, more);
        self.absorb(data);
    }
    pub fn prf(&mut self, data: &mut [u8], more: bool) {
        self.begin_op(FLAG_I | FLAG_A | FLAG_C, more);
        self.squeeze(data);
    }
    pub fn key(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A | FLAG_C, more);
        self.overwrite(data);
    }
    fn run_f(&mut self) {
        self.state[self.pos as usize] ^= self.pos_begin;
        self.state[self.pos as usize + 1] ^= 0x04;
        self.state[STROBE_R as usize + 1] ^= 0x80;
        keccak1600::f1600_bytes(&mut self.state);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, data: &[u8]) {
        for b in data {
            self.state[self.pos as usize] ^= b;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn overwrite(&mut self, data: &[u8]) {
        for b in data {
            self.state[self.pos as usize] = *b;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn squeeze(&mut self, data: &mut [u8]) {
        for b in data {
            *b = self.state[self.pos as usize];
            self.state[self.pos as usize] = 0;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            assert_eq!(self.cur_flags, flags);
            return;
        }
        assert_eq!(flags & FLAG_T, 0);
        let old_begin = self.pos_begin;
        self.pos_begin = self.pos + 1;
        self.cur_flags = flags;
        self.absorb(&[old_begin, flags]);
        if (flags & (FLAG_C | FLAG_K)) != 0 && self.pos != 0 {
            self.run_f();
        }
    }
}

/// One logged transcript operation.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    New(Vec<u8>),
    Append(Vec<u8>, Vec<u8>),
    Challenge(Vec<u8>, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry {
    /// transcript instance (clones keep their parent's number)
    pub id: u64,
    pub op: Op,
}
thread_local! {
    static LOG: RefCell<Option<Vec<Entry>>> = RefCell::new(None);
    static NEXT: RefCell<u64> = RefCell::new(0);
}
pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    NEXT.with(|n| *n.borrow_mut() = 1000);
}
pub fn log_take() -> Vec<Entry> {
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
fn log(id: u64, op: impl FnOnce() -> Op) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(Entry { id, op: op() })
        }
    })
}

/// Rewrites a message before it is absorbed: (transcript's name, label, message) -> replacement.
pub type AppendHook = Box<dyn Fn(&[u8], &[u8], &[u8]) -> Option<Vec<u8>>>;
/// Replaces a challenge: (transcript's name, how many this transcript name has drawn, length).
pub type ChallengeHook = Box<dyn Fn(&[u8], u64, usize) -> Option<Vec<u8>>>;
thread_local! {
    static APPEND: RefCell<Option<AppendHook>> = RefCell::new(None);
    static CHALLENGE: RefCell<Option<(ChallengeHook, u64)>> = RefCell::new(None);
}
pub fn hook_append(h: Option<AppendHook>) {
    APPEND.with(|a| *a.borrow_mut() = h);
}
pub fn hook_challenge(h: Option<ChallengeHook>) {
    CHALLENGE.with(|a| *a.borrow_mut() = h.map(|h| (h, 0)));
}

#[derive(Clone)]
pub struct Transcript {
    strobe: Strobe128,
    id: u64,
    name: &'static [u8],
}
fn encode_u32(x: usize) -> [u8; 4] {
    (x as u32).to_le_bytes()
}
impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        let mut t = Transcript { strobe: Strobe128::new(b"Merlin v1.0"), id, name: label };
        log(id, || Op::New(label.to_vec()));
        t.append_raw(b"dom-sep", label);
        t
    }
    pub fn log_id(&self) -> u64 {
        self.id
    }
    fn append_raw(&mut self, label: &[u8], message: &[u8]) {
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&encode_u32(message.len()), true);
        self.strobe.ad(message, false);
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        let new = APPEND.with(|a| a.borrow().as_ref().and_then(|h| h(self.name, label, message)));
        let message = new.as_deref().unwrap_or(message);
        log(self.id, || Op::Append(label.to_vec(), message.to_vec()));
        self.append_raw(label, message);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&encode_u32(dest.len()), true);
        self.strobe.prf(dest, false);
        CHALLENGE.with(|c| {
            if let Some((h, n)) = c.borrow_mut().as_mut() {
                if let Some(v) = h(self.name, *n, dest.len()) {
                    dest.copy_from_slice(&v);
                    *n += 1;
                }
            }
        });
        log(self.id, || Op::Challenge(label.to_vec(), dest.to_vec()));
    }
}
#[cfg(test)]
mod t {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    #[test]
    fn conformance() {
        let mut s = Strobe128::new(b"Conformance Test Protocol");
        s.meta_ad(b"ms", false);
        s.meta_ad(b"g", true);
        s.ad(&[99u8; 1024], false);
        s.meta_ad(b"prf", false);
        let mut prf1 = [0u8; 32];
        s.prf(&mut prf1, false);
        assert_eq!(hex(&prf1), "b48e645ca17c667fd5206ba57a6a228d72d8e1903814d3f17f622996d7cfefb0");
        s.meta_ad(b"key", false);
        s.key(&prf1, false);
        s.meta_ad(b"prf", false);
        let mut prf2 = [0u8; 32];
        s.prf(&mut prf2, false);
        assert_eq!(hex(&prf2), "07e45cce8078cee259e3e375bb85d75610e2d1e1201c5f645045a194edd49ff8");
        let mut t = Transcript::new(b"test protocol");
        t.append_message(b"some label", b"some data");
        let mut c = [0u8; 32];
        t.challenge_bytes(b"challenge", &mut c);
        assert_eq!(hex(&c), "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
    }
}
