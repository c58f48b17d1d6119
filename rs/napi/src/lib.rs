//! The native half of the TypeScript checks: the repository's Rust client interface, its circuit
//! compiler and its circuits, callable from Node as `call(op, bytes, bytes, bytes)`.
use refm::{le, to_le, U};
use std::collections::HashMap;
use std::ffi::c_void;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, OnceLock};
include!("../../common/r1csfile.rs");

type Env = *mut c_void;
type Val = *mut c_void;
extern "C" {
    fn napi_create_function(e: Env, n: *const u8, l: usize, f: extern "C" fn(Env, Val) -> Val, d: *mut c_void, r: *mut Val) -> i32;
    fn napi_get_cb_info(e: Env, i: Val, argc: *mut usize, argv: *mut Val, this: *mut Val, d: *mut *mut c_void) -> i32;
    fn napi_get_buffer_info(e: Env, v: Val, d: *mut *mut u8, l: *mut usize) -> i32;
    fn napi_get_value_string_utf8(e: Env, v: Val, b: *mut u8, n: usize, r: *mut usize) -> i32;
    fn napi_create_buffer_copy(e: Env, n: usize, d: *const u8, out: *mut *mut c_void, r: *mut Val) -> i32;
    fn napi_throw_error(e: Env, code: *const u8, msg: *const u8) -> i32;
}
unsafe fn bytes(e: Env, v: Val) -> Vec<u8> {
    let (mut d, mut l) = (std::ptr::null_mut(), 0);
    if napi_get_buffer_info(e, v, &mut d, &mut l) != 0 || l == 0 {
        return vec![];
    }
    std::slice::from_raw_parts(d, l).to_vec()
}
extern "C" fn entry(e: Env, info: Val) -> Val {
    unsafe {
        let mut argv = [std::ptr::null_mut(); 4];
        let mut n = 4;
        napi_get_cb_info(e, info, &mut n, argv.as_mut_ptr(), std::ptr::null_mut(), std::ptr::null_mut());
        let mut op = [0u8; 64];
        let mut l = 0;
        napi_get_value_string_utf8(e, argv[0], op.as_mut_ptr(), 64, &mut l);
        let op = String::from_utf8_lossy(&op[..l]).to_string();
        let a: Vec<Vec<u8>> = (1..4).map(|i| bytes(e, argv[i])).collect();
        let r = match catch_unwind(AssertUnwindSafe(|| call(&op, &a))) {
            Ok(r) => r,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(format!("unreachable: {}", m.unwrap_or_default()))
            }
        };
        let mut out = std::ptr::null_mut();
        match r {
            Ok(v) => {
                napi_create_buffer_copy(e, v.len(), v.as_ptr(), std::ptr::null_mut(), &mut out);
            }
            Err(m) => {
                let m = m.replace('\0', " ") + "\0";
                napi_throw_error(e, std::ptr::null(), m.as_ptr());
            }
        }
        out
    }
}
#[no_mangle]
pub extern "C" fn napi_register_module_v1(e: Env, _exports: Val) -> Val {
    std::panic::set_hook(Box::new(|_| ()));
    let mut f = std::ptr::null_mut();
    unsafe { napi_create_function(e, b"call".as_ptr(), 4, entry, std::ptr::null_mut(), &mut f) };
    f
}

struct Circ {
    lib: circ::Lib,
    tpl: Arc<circ::Tpl>,
    /// wire of every signal
    wire: Vec<u32>,
    wires: u32,
    np: usize,
}
type Cache = Mutex<HashMap<String, Result<Arc<Circ>, String>>>;
/// "path|template|levels", or the path alone: the circuit with the public inputs its instance file lists
fn circuit(key: &str) -> Result<Arc<Circ>, String> {
    static C: OnceLock<Cache> = OnceLock::new();
    let mut c = C.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    c.entry(key.to_string()).or_insert_with(|| build(key).map(Arc::new)).clone()
}
fn build(key: &str) -> Result<Circ, String> {
    let mut it = key.split('|');
    let (path, rest) = (it.next().unwrap(), it.next());
    let lib = circ::load(std::path::Path::new(path))?;
    // without a template the file's main component
    let (public, tpl) = match rest {
        None => lib.compile_main()?,
        Some(name) => {
            let public = lib.main.as_ref().ok_or("no main component")?.0.clone();
            (public, lib.compile(name, &[it.next().ok_or("key")?.parse().map_err(|_| "levels")?])?)
        }
    };
    // a signal that is another one's copy shares its wire, as in the compiler's output
    let fixed: Vec<bool> = {
        let mut f = vec![false; tpl.span as usize];
        for s in tpl.inputs().chain(tpl.outputs()) {
            f[s.off as usize..s.off as usize + s.len()].fill(true);
        }
        f
    };
    let mut of: Vec<u32> = (0..tpl.span).collect();
    copies(&tpl, 0, &fixed, &mut of);
    for k in 0..of.len() {
        of[k] = root(&of, k as u32);
    }
    let mut wire = vec![u32::MAX; tpl.span as usize];
    let mut next = 1;
    let mut np = 0;
    let mut put = |wire: &mut Vec<u32>, s: &elab_sig::Sig| {
        for k in s.off..s.off + s.len() as u32 {
            wire[k as usize] = next;
            next += 1;
        }
    };
    for s in tpl.outputs() {
        put(&mut wire, s);
        np += s.len();
    }
    for s in tpl.inputs().filter(|s| public.contains(&s.name)) {
        put(&mut wire, s);
        np += s.len();
    }
    for s in tpl.inputs().filter(|s| !public.contains(&s.name)) {
        put(&mut wire, s);
    }
    for k in 0..wire.len() {
        let r = of[k] as usize;
        if wire[r] == u32::MAX {
            wire[r] = next;
            next += 1;
        }
        wire[k] = wire[r];
    }
    Ok(Circ { lib, tpl, wire, wires: next, np })
}
fn root(of: &[u32], mut k: u32) -> u32 {
    while of[k as usize] != k {
        k = of[k as usize];
    }
    k
}
/// The two signals a constraint says are the same.
fn copy(c: &circ::elab::Con) -> Option<(u32, u32)> {
    let f = &refm::FP;
    let (k, l) = match (c.a.1.is_empty(), c.b.1.is_empty()) {
        (true, _) => (&c.a.0, &c.b),
        (_, true) => (&c.b.0, &c.a),
        _ => return None,
    };
    let mut t: Vec<(u32, U)> = vec![];
    let zero = [0u64; 4];
    for (i, v) in l.1.iter().map(|(i, v)| (*i, f.mul(k, v))).chain(c.c.1.iter().map(|(i, v)| (*i, f.sub(&zero, v)))) {
        match t.iter_mut().find(|e| e.0 == i) {
            Some(e) => e.1 = f.add(&e.1, &v),
            None => t.push((i, v)),
        }
        if t.len() > 4 {
            return None;
        }
    }
    t.retain(|e| e.1 != zero);
    let k0 = f.sub(&f.mul(k, &l.0), &c.c.0);
    (t.len() == 2 && k0 == zero && f.add(&t[0].1, &t[1].1) == zero).then(|| (t[0].0, t[1].0))
}
fn copies(t: &circ::Tpl, base: u32, fixed: &[bool], of: &mut [u32]) {
    for c in &t.cons {
        if let Some((x, y)) = copy(c) {
            let (x, y) = (root(of, base + x), root(of, base + y));
            // the circuit's own inputs and outputs keep their wires
            if !fixed[y as usize] {
                of[y as usize] = x;
            } else if !fixed[x as usize] {
                of[x as usize] = y;
            }
        }
    }
    for c in &t.children {
        copies(&c.tpl, base + c.base, fixed, of);
    }
}
mod elab_sig {
    pub use circ::elab::Sig;
}
fn rows(t: &circ::Tpl, base: u32, wire: &[u32], out: &mut Vec<[Vec<(u32, vk::B32)>; 3]>) {
    let one = |l: &circ::elab::Lc| {
        let mut v: Vec<(u32, vk::B32)> = vec![];
        if l.0 != [0; 4] {
            v.push((0, vk::B32(to_le(&l.0))));
        }
        for (i, c) in &l.1 {
            let (i, c) = (wire[(base + i) as usize], vk::B32(to_le(c)));
            match v.iter_mut().find(|e| e.0 == i) {
                Some(e) => e.1 = vk::B32(to_le(&refm::FP.add(&le(&e.1 .0), &le(&c.0)))),
                None => v.push((i, c)),
            }
        }
        v
    };
    for c in &t.cons {
        if let Some((x, y)) = copy(c) {
            if wire[(base + x) as usize] == wire[(base + y) as usize] {
                continue;
            }
        }
        out.push([one(&c.a), one(&c.b), one(&c.c)]);
    }
    for c in &t.children {
        rows(&c.tpl, base + c.base, wire, out);
    }
}
fn call(op: &str, a: &[Vec<u8>]) -> Result<Vec<u8>, String> {
    use spartan_wasm::wasm;
    let text = |b: &[u8]| String::from_utf8(b.to_vec()).map_err(|e| e.to_string());
    match op {
        "poseidon" => wasm::poseidon(&a[0]).map_err(|_| "error value".into()),
        // the model's hash of pairs of field elements (32 bytes each, big-endian)
        "poseidon_ref" => {
            let v: Vec<U> = a[0].chunks(32).map(|c| refm::be(c.try_into().unwrap())).collect();
            Ok(v.chunks(2).flat_map(|p| refm::to_be(&refm::poseidon::hash2(pa(), &p[0], &p[1]))).collect())
        }
        "prove" => wasm::prove(&a[0], &a[1], &a[2]).map_err(|_| "error value".into()),
        "verify" => wasm::verify(&a[0], &a[1], &a[2]).map(|b| vec![b as u8]).map_err(|_| "error value".into()),
        // the circuit compiler's output for a circuit of the repository
        "circuit" => {
            let c = circuit(&text(&a[0])?)?;
            let mut cons = vec![];
            rows(&c.tpl, 0, &c.wire, &mut cons);
            let outs: usize = c.tpl.outputs().map(|s| s.len()).sum();
            let ins: usize = c.tpl.inputs().map(|s| s.len()).sum();
            let wires = c.wires;
            let s = Sys {
                wires,
                pub_out: outs as u32,
                pub_in: (c.np - outs) as u32,
                prv_in: (ins + outs - c.np) as u32,
                labels: wires as u64,
                cons,
                map: (0..wires as u64).collect(),
            };
            let p = std::path::PathBuf::from(text(&a[1])?);
            std::fs::write(&p, r1cs(&s, &Layout { extra: vec![], order: vec![] })).map_err(|e| e.to_string())?;
            let i = circuit_reader::load_as_spartan_inst(p.clone(), c.np);
            let _ = std::fs::remove_file(&p);
            bincode::serialize(&i).map_err(|e| e.to_string())
        }
        // names and numbers of entries of the circuit's inputs
        "inputs" => {
            let c = circuit(&text(&a[0])?)?;
            Ok(c.tpl.inputs().map(|s| format!("{}={}\n", s.name, s.len())).collect::<String>().into_bytes())
        }
        // the .wtns file for inputs given as "name=hex,hex" lines
        "witness" => {
            let c = circuit(&text(&a[0])?)?;
            let t = text(&a[1])?;
            let mut ins: Vec<(&str, Vec<U>)> = vec![];
            for l in t.lines() {
                let (n, v) = l.split_once('=').ok_or("bad input line")?;
                let mut x = vec![];
                for h in v.split(',').filter(|h| !h.is_empty()) {
                    let mut b = [0u8; 32];
                    for (i, c) in format!("{h:0>64}").as_bytes().chunks(2).rev().enumerate() {
                        b[i] = u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).map_err(|e| e.to_string())?;
                    }
                    x.push(circ::fp::red(le(&b)));
                }
                ins.push((n, x));
            }
            let w = circ::witness(&c.lib, &c.tpl, &ins, &mut circ::Honest)?;
            if let Some(b) = circ::broken(&c.tpl, &w) {
                return Err(format!("Assert Failed: {b}"));
            }
            let mut z = vec![vk::B32([0; 32]); c.wires as usize];
            z[0].0[0] = 1;
            for (k, v) in w.iter().enumerate() {
                z[c.wire[k] as usize] = vk::B32(to_le(v));
            }
            Ok(wtns(&z))
        }
        _ => Err(format!("no operation {op}")),
    }
}
fn pa() -> &'static refm::poseidon::Params {
    static P: OnceLock<refm::poseidon::Params> = OnceLock::new();
    P.get_or_init(refm::poseidon::params)
}
