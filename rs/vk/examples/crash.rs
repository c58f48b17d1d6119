//! How the runner answers to cases that abort, overflow the stack, take all memory or never end.
use vk::*;
fn deep(n: u64) -> u64 {
    let a = [n; 64];
    if n == 0 { 0 } else { deep(n - 1) + std::hint::black_box(a)[3] }
}
fn main() {
    let mut c = Check::new("C00", "self-test");
    let what = std::env::var("CRASH").unwrap();
    c.sub("crash", 4000, 4000, 8, || 0u64..4000, move |x: &u64, _o: &mut Obs| {
        if *x == 777 {
            match &what[..] {
                "abort" => std::process::abort(),
                "stack" => {
                    std::hint::black_box(deep(1 << 40));
                }
                "memory" => {
                    std::hint::black_box(vec![1u8; 100 << 30]);
                }
                "segv" => unsafe { std::ptr::write_volatile(16 as *mut u8, 1) },
                _ => return Err("plain failure".into()),
            }
        }
        Ok(())
    });
    c.finish()
}
