//! Runs scenarios of the harness natively on given values.
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, resume_unwind};

struct St {
    vals: Vec<u8>,
    at: usize,
    dig: u64,
    texts: Vec<Vec<u8>>,
}
enum Stop {
    Assume,
    Fail(u32, String),
}
thread_local! {
    static ST: RefCell<St> = RefCell::new(St{vals:vec![],at:0,dig:0,texts:vec![]});
    static MSG: RefCell<String> = RefCell::new(String::new());
}
fn dig(b: &[u8]) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        for x in b {
            s.dig = (s.dig ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        s.dig = (s.dig ^ 0xff).wrapping_mul(0x100000001b3);
    })
}
fn stop(s: Stop) -> ! {
    resume_unwind(Box::new(s))
}
#[no_mangle]
pub extern "C-unwind" fn sym_byte(hint: u8) -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.at;
        s.at += 1;
        s.vals.get(i).copied().unwrap_or(hint)
    })
}
#[no_mangle]
pub extern "C-unwind" fn sym_choice(n: u8) -> u8 {
    let v = sym_byte(0);
    if v < n {
        v
    } else {
        0
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        stop(Stop::Assume)
    }
}
#[no_mangle]
pub extern "C-unwind" fn sym_split(c: bool) -> bool {
    c
}
#[no_mangle]
pub extern "C-unwind" fn sym_check(c: bool, label: u32) {
    if !c {
        stop(Stop::Fail(label, String::new()))
    }
    dig(&[0x5a, label as u8]);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_check_eq(p: *const u8, n: usize, q: *const u8, m: usize, label: u32) {
    let a = std::slice::from_raw_parts(p, n);
    let b = std::slice::from_raw_parts(q, m);
    if a != b {
        stop(Stop::Fail(
            label,
            format!("got {} expected {}", esc(a), esc(b)),
        ))
    }
    dig(a);
}
#[no_mangle]
pub unsafe extern "C-unwind" fn sym_input(p: *const u8, n: usize) {
    let a = std::slice::from_raw_parts(p, n);
    dig(a);
    ST.with(|s| s.borrow_mut().texts.push(a.to_vec()));
}
#[no_mangle]
pub extern "C-unwind" fn sym_reach(_: u32) {}

fn esc(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => s.escape_debug().to_string(),
        Err(_) => b.escape_ascii().to_string(),
    }
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim().trim_start_matches('x').as_bytes();
    s.chunks(2)
        .filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok())
        .collect()
}
fn run(scn: usize, vals: Vec<u8>) -> (String, Vec<Vec<u8>>) {
    ST.with(|s| {
        *s.borrow_mut() = St { vals, at: 0, dig: 0xcbf29ce484222325, texts: vec![] }
    });
    let r = catch_unwind(|| (h::props::SCENARIOS[scn].f)());
    let texts = ST.with(|s| std::mem::take(&mut s.borrow_mut().texts));
    let line = match r {
        Ok(()) => format!("PASS {:016x}", ST.with(|s| s.borrow().dig)),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(Stop::Assume) => "ASSUME".to_string(),
            Some(Stop::Fail(l, m)) => {
                let what = h::sym::LABELS.iter().find(|x| x.0 == *l).map_or("check failed", |x| x.1);
                format!("FAIL {} {} {}", l, what, m).trim_end().to_string()
            }
            None => format!("PANIC {}", MSG.with(|m| m.borrow().replace('\n', " "))),
        },
    };
    (line, texts)
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        MSG.with(|m| *m.borrow_mut() = i.to_string());
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (i, s) in h::props::SCENARIOS.iter().enumerate() {
                println!("{}\t{}\t{}\t{}\t{}", i, s.prop, s.name, s.tier, s.bounds);
            }
        }
        Some("one") => {
            let (l, _) = run(a[2].parse().unwrap(), unhex(a.get(3).map_or("", |s| s)));
            println!("{}", l);
        }
        Some("show") => {
            let (l, t) = run(a[2].parse().unwrap(), unhex(a.get(3).map_or("", |s| s)));
            for t in t {
                println!("INPUT {}", esc(&t));
            }
            println!("{}", l);
        }
        Some("batch") => {
            let stdin = std::io::stdin();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                let mut it = line.split_whitespace();
                let (Some(s), v) = (it.next(), it.next()) else { continue };
                let (l, _) = run(s.parse().unwrap(), unhex(v.unwrap_or("")));
                println!("{}", l);
            }
        }
        _ => {
            eprintln!("usage: replay list | one SCN xHEX | show SCN xHEX | batch");
            std::process::exit(2);
        }
    }
}
