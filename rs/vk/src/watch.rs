//! Cases that bring the process down or do not come to an end: reported like any other failure.
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const N: usize = 64;
struct Slot {
    case: AtomicPtr<()>,
    show: AtomicUsize,
    name: AtomicPtr<String>,
    since: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot { case: AtomicPtr::new(std::ptr::null_mut()), show: AtomicUsize::new(0), name: AtomicPtr::new(std::ptr::null_mut()), since: AtomicU64::new(0) };
static SLOTS: [Slot; N] = [EMPTY; N];
static CRASHED: AtomicUsize = AtomicUsize::new(0);
static SIGNAL: AtomicUsize = AtomicUsize::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
thread_local! { static MY: Cell<usize> = const { Cell::new(N) }; }
/// First failure of each sub-check, as found.
static FAILED: Mutex<BTreeMap<String, (Value, String)>> = Mutex::new(BTreeMap::new());
static T0: Mutex<Option<Instant>> = Mutex::new(None);

fn now() -> u64 {
    T0.lock().unwrap().map(|t| t.elapsed().as_millis() as u64).unwrap_or(0)
}
pub fn enter(slot: usize, name: &str) {
    if slot < N {
        MY.with(|m| m.set(slot));
        SLOTS[slot].name.store(Box::into_raw(Box::new(name.to_string())), SeqCst);
    }
}
/// Runs `f` while the case `v` is on record.
pub fn during<V: serde::Serialize, T>(v: &V, f: impl FnOnce() -> T) -> T {
    fn show<V: serde::Serialize>(p: *const ()) -> Value {
        serde_json::to_value(unsafe { &*(p as *const V) }).unwrap_or(Value::Null)
    }
    let i = MY.with(|m| m.get());
    if i == N {
        return f();
    }
    let s = &SLOTS[i];
    s.show.store(show::<V> as fn(*const ()) -> Value as usize, SeqCst);
    s.case.store(v as *const V as *mut (), SeqCst);
    s.since.store(now().max(1), SeqCst);
    let r = f();
    s.since.store(0, SeqCst);
    s.case.store(std::ptr::null_mut(), SeqCst);
    r
}
pub fn failed(sub: &str) -> bool {
    FAILED.lock().unwrap().contains_key(sub)
}
pub fn fail(sub: &str, case: Value, why: &str) {
    FAILED.lock().unwrap().entry(sub.to_string()).or_insert((case, why.to_string()));
}

#[repr(C)]
struct Action {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
extern "C" {
    fn sigaction(sig: i32, a: *const Action, old: *mut Action) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
    fn raise(sig: i32) -> i32;
    fn usleep(us: u32) -> i32;
    fn _exit(code: i32) -> !;
    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
}
extern "C" fn handler(sig: i32) {
    let i = MY.with(|m| m.get());
    unsafe {
        if i == N || SLOTS[i].case.load(SeqCst).is_null() {
            // between cases: memory may be short because of what another thread's case took
            if sig == 6 && i < N {
                let _ = CRASHED.compare_exchange(0, N + 1, SeqCst, SeqCst);
            }
            if CRASHED.load(SeqCst) > 0 && i < N {
                loop {
                    usleep(100_000);
                }
            }
            signal(sig, 0);
            raise(sig);
            return;
        }
        SIGNAL.store(sig as usize, SeqCst);
        let _ = CRASHED.compare_exchange(0, i + 1, SeqCst, SeqCst);
        loop {
            usleep(100_000);
        }
    }
}
pub fn stop() {
    DONE.store(true, SeqCst)
}
/// `limit`: seconds one case may take; `total`: seconds after which failures found so far are reported.
pub fn start(id: &'static str, verif: String, seed: u64, limit: u64, total: u64) {
    *T0.lock().unwrap() = Some(Instant::now());
    let a = Action { handler: handler as extern "C" fn(i32) as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
    for sig in [6, 11, 7, 4, 8] {
        unsafe { sigaction(sig, &a, std::ptr::null_mut()) };
    }
    // memory without end becomes an allocation that fails
    unsafe { setrlimit(9, &[28 << 30, u64::MAX]) };
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            if DONE.load(SeqCst) {
                return;
            }
            let at = |i: usize, why: String| unsafe {
                let s = &SLOTS[i];
                let (p, f, name) = (s.case.load(SeqCst), s.show.load(SeqCst), s.name.load(SeqCst));
                if p.is_null() {
                    return;
                }
                let f: fn(*const ()) -> Value = std::mem::transmute(f);
                fail(&*name, f(p), &why);
                report(id, &verif, seed)
            };
            let c = CRASHED.load(SeqCst);
            if c > 0 {
                // whatever took the memory, what follows needs some
                unsafe { setrlimit(9, &[u64::MAX; 2]) };
            }
            if c == N + 1 {
                if !FAILED.lock().unwrap().is_empty() {
                    report(id, &verif, seed)
                }
                let longest = (0..N).filter(|&i| SLOTS[i].since.load(SeqCst) > 0).min_by_key(|&i| SLOTS[i].since.load(SeqCst));
                if let Some(i) = longest {
                    at(i, "the process is brought down while this case runs (signal 6)".into())
                }
                // nothing was under test
                unsafe { _exit(3) }
            } else if c > 0 {
                at(c - 1, format!("the process is brought down (signal {})", SIGNAL.load(SeqCst)))
            }
            let t = now();
            for i in 0..N {
                let since = SLOTS[i].since.load(SeqCst);
                if since > 0 && t > since + limit * 1000 {
                    at(i, format!("not done after {} seconds", limit))
                }
            }
            if t > total * 1000 && !FAILED.lock().unwrap().is_empty() {
                report(id, &verif, seed)
            }
        })
        .unwrap();
}
pub fn write(id: &str, verif: &str, seed: u64, sub: &str, case: &Value, why: &str) -> String {
    let path = format!("{}/evidence/replay/{}-{}.json", verif, id, sub);
    let body = json!({"property": id, "sub": sub, "seed": seed, "case": case, "why": why,
        "run": format!("{}/check {} --replay {}", verif, id, path)});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).unwrap();
    eprintln!("{} {}: {}", id, sub, why);
    format!("VIOLATION property={} replay={}", id, path)
}
fn report(id: &str, verif: &str, seed: u64) -> ! {
    use std::io::Write;
    let f = FAILED.lock().unwrap();
    let mut out = String::new();
    for (sub, (case, why)) in f.iter() {
        out += &write(id, verif, seed, sub, case, why);
        out += "\n";
    }
    let so = std::io::stdout();
    let mut so = so.lock();
    let _ = so.write_all(out.as_bytes());
    let _ = so.flush();
    unsafe { _exit(1) }
}
