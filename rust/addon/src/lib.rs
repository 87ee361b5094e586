//! Node addon over the real crates: the bindings' operations, the CLI commands and the controlled
//! entropy source, so that the JavaScript explorer drives the same Rust code as the Rust explorers.
//! One exported function `call(op, ...bytes) -> [status, ...bytes]`; status 0 done, 1 error, 2 panic.
use std::ffi::c_void;
use std::os::raw::c_char;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;
type Env = *mut c_void; type Val = *mut c_void; type Info = *mut c_void;
type Cb = extern "C" fn(Env, Info) -> Val;
extern "C" {
    fn napi_create_function(e: Env, name: *const c_char, len: usize, cb: Cb, data: *mut c_void, out: *mut Val) -> i32;
    fn napi_get_cb_info(e: Env, i: Info, argc: *mut usize, argv: *mut Val, this: *mut Val, data: *mut *mut c_void) -> i32;
    fn napi_get_buffer_info(e: Env, v: Val, data: *mut *mut c_void, len: *mut usize) -> i32;
    fn napi_create_buffer_copy(e: Env, len: usize, data: *const c_void, out_data: *mut *mut c_void, out: *mut Val) -> i32;
    fn napi_create_array(e: Env, out: *mut Val) -> i32;
    fn napi_set_element(e: Env, o: Val, i: u32, v: Val) -> i32;
    fn napi_create_uint32(e: Env, x: u32, out: *mut Val) -> i32;
    fn napi_get_value_string_utf8(e: Env, v: Val, buf: *mut c_char, n: usize, out: *mut usize) -> i32;
}
type Out = Result<Vec<Vec<u8>>, String>;
fn text(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
fn run(op: &str, a: &[Vec<u8>]) -> Out {
    use getrandom::control::{self, Source};
    let s = |i: usize| text(&a[i]);
    let any = |r: Result<(), Box<dyn std::fmt::Display>>| r.map(|_| vec![]).map_err(|e| e.to_string());
    let num = |i: usize| text(&a[i]).parse::<u64>().unwrap_or(u64::MAX);
    match op {
        "wasm_encap" => zkenc_js::wasm_encap(&a[0], &a[1]).map(|r| vec![r.ciphertext(), r.key()]).map_err(js),
        "wasm_decap" => zkenc_js::wasm_decap(&a[0], &a[1], &a[2]).map(|k| vec![k.to_vec()]).map_err(js),
        "recorded" => {
            use ark_ff::{BigInteger, PrimeField}; use ark_serialize::CanonicalDeserialize;
            let c = zkenc_core::Ciphertext::<ark_bn254::Bn254>::deserialize_compressed(&a[0][..]).map_err(|e| e.to_string())?;
            Ok(c.public_inputs.iter().map(|p| { let mut v = p.into_bigint().to_bytes_le(); v.resize(32, 0); v }).collect())
        }
        "encrypt_gcm" => zkenc_cli::crypto::encrypt_gcm(&a[0], &a[1]).map(|v| vec![v]).map_err(|e| format!("{:#}", e)),
        "decrypt_gcm" => zkenc_cli::crypto::decrypt_gcm(&a[0], &a[1]).map(|v| vec![v]).map_err(|e| format!("{:#}", e)),
        "cli_encap" => any(zkenc_cli::commands::encap_command(&s(0), &s(1), &s(2), &s(3), &s(4)).map_err(|e| Box::new(format!("{:#}", e)) as _)),
        "cli_decap" => any(zkenc_cli::commands::decap_command(&s(0), &s(1), &s(2), &s(3)).map_err(|e| Box::new(format!("{:#}", e)) as _)),
        "cli_encrypt" => any(zkenc_cli::commands::encrypt_command(&s(0), &s(1), &s(2), &s(3), &s(4), s(5) == "1").map_err(|e| Box::new(format!("{:#}", e)) as _)),
        "cli_decrypt" => any(zkenc_cli::commands::decrypt_command(&s(0), &s(1), &s(2), &s(3)).map_err(|e| Box::new(format!("{:#}", e)) as _)),
        // Rust's reading of a symbol file: "wire name" per input signal
        "sym" => {
            let m = zkenc_cli::sym_parser::parse_sym_file(&s(0)).map_err(|e| format!("{:#}", e))?;
            let g = zkenc_cli::sym_parser::get_input_signals(&m, s(1).parse::<u32>().ok());
            let mut v: Vec<String> = g.iter().map(|(k, w)| format!("{} {}", w, k)).collect(); v.sort(); Ok(v.into_iter().map(String::into_bytes).collect())
        }
        // the command line reader's values, by wire
        "cli_witness" => {
            use ark_ff::{BigInteger, PrimeField};
            let w = zkenc_cli::witness::WitnessFile::from_file(&s(0)).map_err(|e| format!("{:#}", e))?;
            let m = w.to_field_elements::<ark_bn254::Fr>().map_err(|e| format!("{:#}", e))?;
            let mut v: Vec<_> = m.iter().collect(); v.sort_by_key(|x| *x.0);
            Ok(v.iter().map(|(w, x)| { let mut b = w.to_le_bytes().to_vec(); let mut y = x.into_bigint().to_bytes_le(); y.resize(32, 0); b.extend(y); b }).collect())
        }
        "entropy" => { control::install(if s(0) == "system" { Source::System } else { Source::Seeded(num(0)) }, num(1)); Ok(vec![]) }
        "flip" => { control::flip(num(0), num(1) as u8); Ok(vec![]) }
        "drawn" => Ok(vec![control::calls().to_string().into_bytes(), control::bytes_drawn().to_string().into_bytes()]),
        "stdout" => Ok(vec![SAVED.get().copied().unwrap_or(1).to_string().into_bytes()]),
        "panic" => panic!("asked for"),
        _ => Err(format!("no operation {}", op)),
    }
}
fn js(v: impl Into<wasm_bindgen::JsValue>) -> String { let v: wasm_bindgen::JsValue = v.into(); v.as_string().unwrap_or_else(|| format!("{:?}", v)) }
static SAVED: OnceLock<i32> = OnceLock::new();
extern "C" fn call(e: Env, info: Info) -> Val {
    unsafe {
        let mut argc = 8usize; let mut argv = [std::ptr::null_mut(); 8];
        napi_get_cb_info(e, info, &mut argc, argv.as_mut_ptr(), std::ptr::null_mut(), std::ptr::null_mut());
        let mut name = [0 as c_char; 64]; let mut n = 0usize;
        napi_get_value_string_utf8(e, argv[0], name.as_mut_ptr(), 64, &mut n);
        let op: String = name[..n].iter().map(|c| *c as u8 as char).collect();
        let mut args = vec![];
        for v in argv.iter().take(argc).skip(1) {
            let mut p = std::ptr::null_mut(); let mut l = 0usize;
            if napi_get_buffer_info(e, *v, &mut p, &mut l) == 0 && l > 0 { args.push(std::slice::from_raw_parts(p as *const u8, l).to_vec()); } else { args.push(vec![]); }
        }
        let (code, out) = match catch_unwind(AssertUnwindSafe(|| run(&op, &args))) { Ok(Ok(v)) => (0, v), Ok(Err(m)) => (1, vec![m.into_bytes()]),
            Err(p) => (2, vec![p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default().into_bytes()]) };
        let mut arr = std::ptr::null_mut(); napi_create_array(e, &mut arr);
        let mut v = std::ptr::null_mut(); napi_create_uint32(e, code, &mut v); napi_set_element(e, arr, 0, v);
        for (i, b) in out.iter().enumerate() { let mut v = std::ptr::null_mut(); let mut d = std::ptr::null_mut(); napi_create_buffer_copy(e, b.len(), b.as_ptr() as *const c_void, &mut d, &mut v); napi_set_element(e, arr, 1 + i as u32, v); }
        arr
    }
}
#[no_mangle]
pub extern "C" fn napi_register_module_v1(e: Env, _exports: Val) -> Val {
    unsafe {
        SAVED.get_or_init(|| {
            std::panic::set_hook(Box::new(|_| {}));
            let saved = libc::dup(1);
            // the code under test talks a lot; keep its chatter out of the results
            if std::env::var("MC_VERBOSE").is_err() { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 1); libc::dup2(n, 2); }
            saved
        });
        let mut f = std::ptr::null_mut(); napi_create_function(e, c"call".as_ptr(), 4, call, std::ptr::null_mut(), &mut f); f
    }
}
