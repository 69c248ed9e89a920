//! Runs the harnesses natively on recorded models: confirms counterexamples against the real, natively
//! compiled code and checks that the symbolic executor and the machine agree on sampled paths.
use std::cell::RefCell;
use std::io::BufRead;
use std::panic;

struct St {
    bytes: Vec<u8>,
    pos: usize,
    digest: u64,
    notes: Vec<String>,
    known: Vec<u32>,
    covers: Vec<u32>,
}
thread_local! { static S: RefCell<St> = RefCell::new(St { bytes: vec![], pos: 0, digest: 0, notes: vec![], known: vec![], covers: vec![] }); }
struct Fail(u32);
struct Assume;

#[no_mangle]
extern "C-unwind" fn vp_sym() -> u8 {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.pos += 1;
        let p = s.pos - 1;
        s.bytes.get(p).copied().unwrap_or(0)
    })
}
#[no_mangle]
extern "C-unwind" fn vp_choice(n: u32) -> u32 {
    let v = vp_sym() as u32;
    if v >= n {
        panic::panic_any(Assume)
    }
    v
}
#[no_mangle]
extern "C-unwind" fn vp_assume(c: bool) {
    if !c {
        panic::panic_any(Assume)
    }
}
#[no_mangle]
extern "C-unwind" fn vp_fail(code: u32) -> ! {
    panic::panic_any(Fail(code))
}
#[no_mangle]
extern "C-unwind" fn vp_cover(id: u32) {
    S.with(|s| s.borrow_mut().covers.push(id))
}
#[no_mangle]
extern "C-unwind" fn vp_known(id: u32) {
    S.with(|s| s.borrow_mut().known.push(id))
}
#[no_mangle]
extern "C-unwind" fn vp_out(v: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        for b in v.to_le_bytes() {
            s.digest = (s.digest ^ b as u64).wrapping_mul(0x100000001b3);
        }
    })
}
#[no_mangle]
unsafe extern "C-unwind" fn vp_note(p: *const u8, n: usize) {
    let t = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned();
    S.with(|s| s.borrow_mut().notes.push(t))
}
#[no_mangle]
extern "C-unwind" fn vp_is_symbolic() -> u32 {
    0
}
#[no_mangle]
extern "C-unwind" fn vp_concretize(v: u64) -> u64 {
    v
}

fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// (outcome, digest): "ok", "assume", "fail N", "panic MSG"
fn one(h: u32, j: u32, bytes: Vec<u8>) -> (String, u64) {
    S.with(|s| *s.borrow_mut() = St { bytes, pos: 0, digest: 0xcbf29ce484222325, notes: vec![], known: vec![], covers: vec![] });
    let r = panic::catch_unwind(|| vcore::run(h, j));
    let d = S.with(|s| s.borrow().digest);
    match r {
        Ok(()) => ("ok".into(), d),
        Err(e) => {
            if let Some(Fail(c)) = e.downcast_ref::<Fail>() {
                (format!("fail {}", c), d)
            } else if e.downcast_ref::<Assume>().is_some() {
                ("assume".into(), d)
            } else {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (format!("panic {}", m.replace('\n', " ")), d)
            }
        }
    }
}
fn esc(s: &str) -> String {
    s.chars().flat_map(|c| match c { '"' => "\\\"".chars().collect::<Vec<_>>(), '\\' => "\\\\".chars().collect(), '\n' => "\\n".chars().collect(), c if (c as u32) < 32 => format!("\\u{:04x}", c as u32).chars().collect(), c => vec![c] }).collect()
}
fn body() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            println!("{{");
            for (i, id) in vcore::IDS.iter().enumerate() {
                println!(" \"{}\": {{\"harness\": {}, \"jobs\": [", id, i);
                let js = vcore::jobs(i as u32);
                for (k, j) in js.iter().enumerate() {
                    println!("  {{\"job\": {}, \"tier\": {}, \"mode\": {}, \"template\": \"{}\"}}{}", k, j.tier, j.mode, esc(j.t), if k + 1 < js.len() { "," } else { "" });
                }
                println!(" ]}}{}", if i + 1 < vcore::IDS.len() { "," } else { "" });
            }
            println!("}}");
        }
        Some("run") => {
            let (r, d) = one(a[2].parse().unwrap(), a[3].parse().unwrap(), unhex(a.get(4).map(|s| s.as_str()).unwrap_or("")));
            S.with(|s| {
                let s = s.borrow();
                for (i, n) in s.notes.iter().enumerate() {
                    if i == 0 { println!("source: {:?}", n) } else { println!("  {}", n) }
                }
                println!("known findings met: {:?}  covers: {:?}  digest: {:016x}", s.known, s.covers, d);
            });
            println!("RESULT {}", r);
            std::process::exit(if r == "ok" { 0 } else if r == "assume" { 2 } else { 1 });
        }
        Some("batch") => {
            let h: u32 = a[2].parse().unwrap();
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let mut p = l.split(' ');
                let j = p.next().unwrap().parse().unwrap();
                let (r, d) = one(h, j, unhex(p.next().unwrap_or("")));
                let src = S.with(|s| s.borrow().notes.first().cloned().unwrap_or_default());
                println!("{:016x}\t{}\t\"{}\"", d, r, esc(&src));
            }
        }
        _ => eprintln!("usage: vreplay list | run H J HEX | batch H"),
    }
}
fn main() {
    panic::set_hook(Box::new(|_| {}));
    // a stack as large as the executor's own limit, so that bounded recursion is not reported as overflow
    std::thread::Builder::new().stack_size(256 << 20).spawn(body).unwrap().join().unwrap();
}
