//! Native replay of harness entries on concrete inputs.
//!   replay one ENTRY HEX P0 P1 ..     runs one input; a failing assertion prints "ASSERT <msg>" and exits 10,
//!                                     an infeasible assumption exits 77, a panic exits 101, else prints the hash and exits 0
//!   replay batch FILE                 lines "ENTRY HEX HASH P0 P1 .."; prints "ok N" / "mismatch <line>"
use std::cell::{Cell, RefCell};
thread_local! {
    static INPUT: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static HASH: Cell<u64> = const { Cell::new(0) };
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
}
struct Infeasible;
struct Failed(String);
fn next() -> u8 {
    let r = INPUT.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        i.0.get(k).copied()
    });
    match r {
        Some(b) => b,
        None => std::panic::panic_any(Infeasible),
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_u8() -> u8 {
    next()
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_choice(n: u32) -> u32 {
    let b = next() as u32;
    if b >= n {
        std::panic::panic_any(Infeasible)
    }
    b
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_assume(b: bool) {
    if !b {
        std::panic::panic_any(Infeasible)
    }
}
#[unsafe(no_mangle)]
unsafe extern "C-unwind" fn sym_assert(b: bool, p: *const u8, n: usize) {
    if !b {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        std::panic::panic_any(Failed(String::from_utf8_lossy(s).into_owned()))
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_out(v: u64) {
    if VERBOSE.with(|x| x.get()) {
        print!("{:x} ", v);
    }
    HASH.with(|c| {
        let mut h = c.get();
        for k in 0..8 {
            h ^= (v >> (8 * k)) & 0xff;
            h = h.wrapping_mul(0x100000001b3);
        }
        c.set(h)
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_param(i: u32) -> u64 {
    PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn sym_cover(_: u32) {}

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
enum Res {
    Done(u64),
    Infeasible,
    Assert(String),
    Panic,
}
fn run(entry: &str, input: Vec<u8>, params: Vec<u64>) -> Res {
    let f = vh::ENTRIES.iter().find(|e| e.0 == entry).unwrap_or_else(|| panic!("no entry {entry}")).1;
    INPUT.with(|i| *i.borrow_mut() = (input, 0));
    PARAMS.with(|p| *p.borrow_mut() = params);
    HASH.with(|h| h.set(0xcbf29ce484222325));
    match std::panic::catch_unwind(|| f()) {
        Ok(()) => Res::Done(HASH.with(|h| h.get())),
        Err(e) => {
            if e.is::<Infeasible>() {
                Res::Infeasible
            } else if let Some(f) = e.downcast_ref::<Failed>() {
                Res::Assert(f.0.clone())
            } else {
                Res::Panic
            }
        }
    }
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars();
    while let Some(c) = i.next() {
        if c == '\\' {
            match i.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some('0') => o.push('\0'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn main() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !i.payload().is::<Infeasible>() && !i.payload().is::<Failed>() {
            d(i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "one" => {
            VERBOSE.with(|v| v.set(true));
            let params = a[4..].iter().map(|x| x.parse().unwrap()).collect();
            let r = run(&a[2], unhex(&a[3]), params);
            println!();
            match r {
                Res::Done(h) => println!("DONE {h:016x}"),
                Res::Infeasible => {
                    println!("INFEASIBLE");
                    std::process::exit(77)
                }
                Res::Assert(m) => {
                    println!("ASSERT {m}");
                    std::process::exit(10)
                }
                Res::Panic => {
                    println!("PANIC");
                    std::process::exit(101)
                }
            }
        }
        "batch" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let mut ok = 0;
            for l in t.lines() {
                let w: Vec<&str> = l.split(' ').collect();
                let params = w[3..].iter().map(|x| x.parse().unwrap()).collect();
                match run(w[0], unhex(w[1]), params) {
                    Res::Done(h) if format!("{h:016x}") == w[2] => ok += 1,
                    Res::Done(h) => println!("mismatch {h:016x} {l}"),
                    Res::Infeasible => println!("mismatch infeasible {l}"),
                    Res::Assert(m) => println!("mismatch assert({m}) {l}"),
                    Res::Panic => println!("mismatch panic {l}"),
                }
            }
            println!("ok {ok}");
        }
        // dev helper: print the events of the text given as a Rust-escaped argument
        "events" => {
            let t = unescape(&a[2]);
            println!("{t:?}");
            let mut p = yam_core::parsing::Parser::new_from_str(&t);
            let mut n = 0;
            while let Some(r) = p.next_event() {
                match r {
                    Ok((e, s)) => println!("{}..{} ({}:{}-{}:{}) {:?}", s.start.pos, s.end.pos, s.start.line, s.start.col, s.end.line, s.end.col, e),
                    Err(e) => {
                        println!("ERR {e}");
                        break;
                    }
                }
                n += 1;
                if n > 200 {
                    break;
                }
            }
        }
        "load" => {
            use yam_core::prelude::*;
            let t = unescape(&a[2]);
            println!("{:?}", Yaml::load_from(&t));
        }
        _ => panic!("usage"),
    }
}
