//! Stand-in for getrandom 0.2.  By default it reads /dev/urandom; a check can make the current
//! thread's stream a pure function of a seed, and can read back what was handed out.
use std::cell::RefCell;
use std::num::NonZeroU32;
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);
impl Error {
    pub const UNSUPPORTED: Error = Error(NonZeroU32::new(1 << 31).unwrap());
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}
thread_local! {
    static STATE: RefCell<Option<u64>> = RefCell::new(None);
    static OUT: RefCell<Option<Vec<u8>>> = RefCell::new(None);
}
/// Makes this thread's randomness deterministic (None: the operating system again).
pub fn vk_seed(s: Option<u64>) {
    STATE.with(|st| *st.borrow_mut() = s);
}
thread_local! {
    static BYTES: RefCell<Option<(Vec<u8>, usize)>> = RefCell::new(None);
}
/// Hands out exactly these bytes (repeating them when they run out).
pub fn vk_bytes(b: Option<Vec<u8>>) {
    BYTES.with(|x| *x.borrow_mut() = b.map(|b| (b, 0)));
}
thread_local! {
    static FAIL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether the operating system has nothing to give to this thread.
pub fn vk_fail(f: bool) {
    FAIL.with(|x| x.set(f));
}
pub fn vk_record_start() {
    OUT.with(|o| *o.borrow_mut() = Some(vec![]));
}
pub fn vk_record_take() -> Vec<u8> {
    OUT.with(|o| o.borrow_mut().take().unwrap_or_default())
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if FAIL.with(|x| x.get()) {
        return Err(Error::UNSUPPORTED);
    }
    let fixed = BYTES.with(|x| {
        let mut x = x.borrow_mut();
        match x.as_mut() {
            None => false,
            Some((b, at)) => {
                for d in dest.iter_mut() {
                    *d = b[*at % b.len()];
                    *at += 1;
                }
                true
            }
        }
    });
    let done = fixed || STATE.with(|st| {
        let mut st = st.borrow_mut();
        match st.as_mut() {
            None => false,
            Some(s) => {
                for chunk in dest.chunks_mut(8) {
                    *s = s.wrapping_add(0x9E3779B97F4A7C15);
                    let mut z = *s;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                    z ^= z >> 31;
                    chunk.copy_from_slice(&z.to_le_bytes()[..chunk.len()]);
                }
                true
            }
        }
    });
    if !done {
        use std::io::Read;
        std::fs::File::open("/dev/urandom").and_then(|mut f| f.read_exact(dest)).map_err(|_| Error::UNSUPPORTED)?;
    }
    OUT.with(|o| {
        if let Some(v) = o.borrow_mut().as_mut() {
            v.extend_from_slice(dest)
        }
    });
    Ok(())
}
