//! Native runtime of a replay.
#[cfg(not(feature = "real_deps"))]
use std::verif::real as std;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::string::String;
use std::sync::{Condvar, Mutex};
use std::vec::Vec;

pub struct Stop(pub String);
struct Run { vals: VecDeque<(u64, u8)>, observes: Vec<u64>, expect: bool, threads: Vec<(bool, Option<usize>)>, cur: usize, preempt: u32, failed: Option<String> }
static RUN: Mutex<Run> = Mutex::new(Run { vals: VecDeque::new(), observes: Vec::new(), expect: false, threads: Vec::new(), cur: 0, preempt: 0, failed: None });
static CV: Condvar = Condvar::new();
std::thread_local! { static ME: std::cell::Cell<usize> = std::cell::Cell::new(0); }
static HANDLES: Mutex<Vec<Option<std::thread::JoinHandle<()>>>> = Mutex::new(Vec::new());

fn lock() -> std::sync::MutexGuard<'static, Run> { RUN.lock().unwrap_or_else(|e| e.into_inner()) }
pub fn load(v: &[(u64, u8)], preempt: u32) {
    let mut r = lock();
    r.vals = v.iter().copied().collect();
    r.observes.clear();
    r.expect = false;
    r.threads = std::vec![(false, None)];
    r.cur = 0;
    r.preempt = preempt;
    r.failed = None;
    HANDLES.lock().unwrap_or_else(|e| e.into_inner()).clear();
}
pub fn observed() -> Vec<u64> { lock().observes.clone() }
pub fn expecting() -> bool { lock().expect }
pub fn failed() -> Option<String> { lock().failed.clone() }
fn stop(s: String) -> ! { std::panic::panic_any(Stop(s)) }

#[no_mangle]
pub extern "C-unwind" fn verif_bits(n: u32) -> u64 {
    let v = lock().vals.pop_front();
    match v { Some((x, _)) => if n < 64 { x & ((1 << n) - 1) } else { x }, None => 0 }
}
#[no_mangle]
pub extern "C-unwind" fn verif_assume(c: bool) { if !c { stop("ASSUME".into()) } }
pub fn bits(n: u32) -> u64 { verif_bits(n) }
pub fn assume(c: bool) { verif_assume(c) }
pub fn check(c: bool, m: &str) {
    if !c {
        let s = std::format!("CHECK {}", m);
        let mut r = lock();
        if r.failed.is_none() { r.failed = Some(s.clone()); }
        drop(r);
        stop(s)
    }
}
pub fn cover(_: bool, _: &str) {}
pub fn expect_panic(on: bool) { lock().expect = on; }
pub fn observe(x: u64) { lock().observes.push(x) }
pub fn merge(_: bool) {}
pub fn split(x: u64) -> u64 { x }

// ---- deterministic scheduler: one thread runs at a time, switched at yields ----
fn pick(r: &mut Run, must: bool) {
    let me = r.cur;
    let run: Vec<usize> = (0..r.threads.len()).filter(|&i| !r.threads[i].0 && r.threads[i].1.is_none() && (!must || i != me)).collect();
    if run.is_empty() { std::process::exit(97); }
    let mut i = 0;
    while i + 1 < run.len() {
        let b = match r.vals.pop_front() { Some((x, _)) => x & 1, None => 0 };
        if b == 1 { break; }
        i += 1;
    }
    let n = run[i];
    if n != me && !must { r.preempt = r.preempt.saturating_sub(1); }
    r.cur = n;
}
fn wait_turn(me: usize) {
    let mut r = lock();
    while r.cur != me { r = CV.wait(r).unwrap_or_else(|e| e.into_inner()); }
}
#[no_mangle]
pub extern "C-unwind" fn verif_yield() {
    let me = ME.with(|m| m.get());
    {
        let mut r = lock();
        if r.threads.len() < 2 { return; }
        let others = (0..r.threads.len()).any(|i| i != me && !r.threads[i].0 && r.threads[i].1.is_none());
        if !(others && r.preempt > 0) { return; }
        pick(&mut r, false);
        CV.notify_all();
    }
    wait_turn(me);
}
#[no_mangle]
pub extern "C-unwind" fn verif_block() {
    let me = ME.with(|m| m.get());
    { let mut r = lock(); r.threads[me].1 = Some(usize::MAX); pick(&mut r, true); CV.notify_all(); }
    wait_turn(me);
}
#[no_mangle]
pub extern "C-unwind" fn verif_wake() {
    for t in lock().threads.iter_mut() { if t.1 == Some(usize::MAX) { t.1 = None; } }
}
pub fn spawn(f: super::Thunk, arg: usize) -> usize {
    let id = { let mut r = lock(); r.threads.push((false, None)); r.threads.len() - 1 };
    let h = std::thread::spawn(move || {
        ME.with(|m| m.set(id));
        wait_turn(id);
        let res = std::panic::catch_unwind(|| f(arg));
        if res.is_err() { let mut r = lock(); if r.failed.is_none() { r.failed = Some("PANIC in a spawned thread".into()); } }
        let mut r = lock();
        r.threads[id].0 = true;
        for t in r.threads.iter_mut() { if t.1 == Some(id) { t.1 = None; } }
        pick(&mut r, true);
        CV.notify_all();
    });
    let mut hs = HANDLES.lock().unwrap();
    while hs.len() <= id { hs.push(None); }
    hs[id] = Some(h);
    id
}
pub fn join(t: usize) {
    let me = ME.with(|m| m.get());
    {
        let mut r = lock();
        if !r.threads[t].0 { r.threads[me].1 = Some(t); pick(&mut r, true); CV.notify_all(); }
    }
    wait_turn(me);
    let h = HANDLES.lock().unwrap()[t].take();
    if let Some(h) = h { h.join().ok(); }
    if let Some(s) = failed() { stop(s) }
}

/// Arguments: harness, case file, repetitions. A case is one line: `value:kind value:kind ...`.
/// Prints one line per case.
pub fn main(table: Vec<(&'static str, extern "C-unwind" fn())>) {
    let a: Vec<String> = std::env::args().collect();
    let f = table.iter().find(|(n, _)| *n == a[1]).expect("harness").1;
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let reps: u32 = a[3].parse().unwrap();
    let preempt: u32 = a.get(4).map(|x| x.parse().unwrap()).unwrap_or(3);
    static LAST: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(std::boxed::Box::new(|i| {
        let loc = i.location().map(|l| std::format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { (*s).into() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
        *LAST.lock().unwrap_or_else(|e| e.into_inner()) = std::format!("{} at {}", msg.replace('\n', " "), loc);
    }));
    for line in text.lines() {
        let vals: Vec<(u64, u8)> = line.split_whitespace().map(|t| { let (x, k) = t.split_once(':').unwrap(); (x.parse::<u64>().unwrap(), k.parse::<u8>().unwrap()) }).collect();
        let mut out = String::from("OK");
        for _ in 0..reps.max(1) {
            load(&vals, preempt);
            let r = std::panic::catch_unwind(|| f());
            out = match r {
                Ok(()) => match failed() { Some(s) => s, None => "OK".into() },
                Err(p) => match p.downcast_ref::<Stop>() {
                    Some(s) => s.0.clone(),
                    None => if expecting() { "OK-PANIC".into() } else { std::format!("PANIC {}", LAST.lock().unwrap_or_else(|e| e.into_inner())) },
                },
            };
            if !out.starts_with("OK") { break; }
        }
        let obs: Vec<String> = observed().iter().map(|x| x.to_string()).collect();
        std::println!("{}\t{}", out, obs.join(","));
    }
}
