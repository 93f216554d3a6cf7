//! Rounds: several threads, each with sessions and objects of its own, against the one library. They take turns in a
//! given order (one call each), or run freely at the same time, or (nested) they are activities of one thread, where
//! the calls of each are made while a call of the one before it is calling back.
use crate::hunt;
use crate::json::{self, J};
use crate::make::{self, Rng};
use crate::ops;
use std::cell::RefCell;
use std::os::unix::fs::FileExt;
use std::rc::Rc;
use std::sync::{Barrier, mpsc};
use std::time::{Duration, Instant};

type Session = Vec<J>;
pub struct Round {
    /// sessions of each thread
    pub threads: Vec<Vec<Session>>,
    /// thread numbers from 0, one per call; empty: no order
    pub order: Vec<usize>,
    /// nested: for each call of an activity in turn, the call back at which the next activity goes on, and the number of
    /// calls it then makes
    pub nests: Vec<Vec<(usize, usize)>>,
    /// handed on: each call whose bit (its number modulo 60) is set is made by a new thread, which is handed the
    /// session with its objects and hands it back; 0: no such thing
    pub relay: i64,
}
/// what is handed from one thread to another and back, never used by two at a time
struct Carry<T>(T);
unsafe impl<T> Send for Carry<T> {}
impl<T> Carry<T> {
    fn get(self) -> T {
        self.0
    }
}
/// one activity of a nested round
struct Activity {
    sessions: Vec<Session>,
    nest: Vec<(usize, usize)>,
    s: usize,
    e: usize,
    calls: usize,
    live: bool,
    objs: Vec<ops::Obj>,
    past: Vec<J>,
    all: Vec<Vec<J>>,
}
type Stack = Rc<Vec<RefCell<Activity>>>;
impl Activity {
    /// makes the next call of activity i; false at its end
    fn step(st: &Stack, i: usize) -> bool {
        let Some(a) = st.get(i) else { return false };
        let Ok(mut a) = a.try_borrow_mut() else { return false };
        let a = &mut *a;
        while a.s < a.sessions.len() && a.e >= a.sessions[a.s].len() {
            a.all.push(std::mem::take(&mut a.past));
            a.objs = vec![];
            a.live = true;
            a.s += 1;
            a.e = 0;
        }
        if a.s >= a.sessions.len() {
            return false;
        }
        let (at, n) = if a.nest.is_empty() { (0, 0) } else { a.nest[a.calls % a.nest.len()] };
        a.calls += 1;
        if a.live {
            let e = &a.sessions[a.s][a.e];
            let st = st.clone();
            let (objs, past) = (&mut a.objs, &mut a.past);
            let inner = Box::new(move || (0..n).for_each(|_| { Activity::step(&st, i + 1); }));
            match ops::during(at, inner, || ops::reply(objs, e, past)) {
                Some(r) => past.push(r),
                None => a.live = false,
            }
        }
        a.e += 1;
        true
    }
}
fn arr(j: Option<&J>) -> Vec<J> {
    match j {
        Some(J::Arr(a)) => a.clone(),
        _ => vec![],
    }
}
impl Round {
    fn from_json(j: &J) -> Round {
        let threads = arr(j.get("threads")).iter().map(|t| arr(Some(t)).iter().map(|s| arr(Some(s))).collect()).collect();
        let pairs = |v: Vec<i64>| v.chunks_exact(2).map(|c| (c[0] as usize, c[1] as usize)).collect();
        let nests = arr(j.get("nests")).iter().map(|x| pairs(arr(Some(x)).iter().map(|y| if let J::Int(n) = y { *n } else { 0 }).collect())).collect();
        Round { threads, order: j.ints("order").iter().map(|&x| x as usize - 1).collect(), nests, relay: j.get("relay").map_or(0, |x| if let J::Int(n) = x { *n } else { 0 }) }
    }
    fn to_json(&self) -> J {
        let t = self.threads.iter().map(|t| J::Arr(t.iter().map(|s| J::Arr(s.clone())).collect())).collect();
        let nests = self.nests.iter().map(|n| J::Arr(n.iter().flat_map(|&(a, b)| [J::Int(a as i64), J::Int(b as i64)]).collect())).collect();
        json::obj(vec![("threads", J::Arr(t)), ("order", J::Arr(self.order.iter().map(|&x| J::Int(x as i64 + 1)).collect())), ("nests", J::Arr(nests)), ("relay", J::Int(self.relay))])
    }
    /// replies by thread and session
    fn run(&self) -> Vec<Vec<Vec<J>>> {
        if !self.nests.is_empty() {
            let start = |(i, t): (usize, &Vec<Session>)| {
                let nest = self.nests.get(i).cloned().unwrap_or_default();
                RefCell::new(Activity { sessions: t.clone(), nest, s: 0, e: 0, calls: 0, live: true, objs: vec![], past: vec![], all: vec![] })
            };
            let st: Stack = Rc::new(self.threads.iter().enumerate().map(start).collect());
            for i in 0..st.len() {
                while Activity::step(&st, i) {}
            }
            let out = st.iter().map(|a| std::mem::take(&mut a.borrow_mut().all)).collect();
            return out;
        }
        if self.relay != 0 {
            let mut k = 0;
            let mut one = |s: &Session| {
                let (mut objs, mut past) = (vec![], vec![]);
                for e in s {
                    k += 1;
                    let r = if self.relay >> (k % 60) & 1 == 0 {
                        ops::reply(&mut objs, e, &past)
                    } else {
                        let c = Carry((&mut objs, &past));
                        std::thread::scope(|sc| sc.spawn(move || { let (o, p) = c.get(); ops::reply(o, e, p) }).join().unwrap())
                    };
                    match r {
                        Some(r) => past.push(r),
                        None => break,
                    }
                }
                past
            };
            return self.threads.iter().map(|t| t.iter().map(&mut one).collect()).collect();
        }
        let free = self.order.is_empty();
        let gate = Barrier::new(self.threads.len());
        std::thread::scope(|sc| {
            let mut go = vec![];
            let (done, finished) = mpsc::channel::<()>();
            let mut hs = vec![];
            for t in &self.threads {
                let (tx, rx) = mpsc::channel::<()>();
                go.push(tx);
                let (done, gate) = (done.clone(), &gate);
                hs.push(sc.spawn(move || {
                    let mut all = vec![];
                    if free {
                        gate.wait();
                    }
                    for s in t {
                        let (mut objs, mut past) = (vec![], vec![]);
                        let mut live = true;
                        for e in s {
                            if !free && rx.recv().is_err() {
                                live = false;
                            }
                            if live {
                                match ops::reply(&mut objs, e, &past) {
                                    Some(r) => past.push(r),
                                    None => live = false,
                                }
                            }
                            if !free {
                                let _ = done.send(());
                            }
                        }
                        all.push(past);
                    }
                    all
                }));
            }
            for &t in &self.order {
                if go[t].send(()).is_ok() {
                    let _ = finished.recv();
                }
            }
            drop(go);
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    }
}
fn replies(v: &[Vec<Vec<J>>]) -> J {
    J::Arr(v.iter().map(|t| J::Arr(t.iter().map(|s| J::Arr(s.clone())).collect())).collect())
}

/// a random round: related or unrelated work in two to four threads
pub fn make(seed: u64, idx: u64, small: bool) -> Round {
    let mut r = Rng::new(seed, idx, "rounds");
    const CHEAP: &[&str] = &[
        "C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20",
        "C21", "C22", "C23", "C27", "C28", "C30", "C31", "C33",
    ];
    let prop = |r: &mut Rng| if r.one_in(60) { r.pick(&["C24", "C25", "C26", "C29"]) } else { r.pick(CHEAP) };
    let n = if !small && r.one_in(4) { r.r(5, 9) } else { r.r(2, 4) };
    let kind = r.b(4);
    let nested = r.one_in(3);
    // parts of the library that call back
    const BACK: &[&str] = &["C01", "C02", "C03", "C10", "C11", "C12", "C12", "C12"];
    let base = if nested && r.one_in(3) { r.pick(BACK) } else { prop(&mut r) };
    let first = make::session(base, seed ^ 77, r.u() >> 20, small);
    let mut threads = vec![];
    for _ in 0..n {
        let mut t = vec![];
        for _ in 0..r.r(1, 3) {
            t.push(match kind {
                // the same session in all threads
                0 => first.clone(),
                // the same kind of work
                1 => make::session(base, seed ^ 77, r.u() >> 20, small),
                // both
                2 if r.one_in(2) => first.clone(),
                2 => make::session(base, seed ^ 77, r.u() >> 20, small),
                _ => {
                    let p = if nested && r.one_in(2) { r.pick(BACK) } else { prop(&mut r) };
                    make::session(p, seed ^ 77, r.u() >> 20, small)
                }
            });
        }
        threads.push(t);
    }
    // calls left in the middle
    for s in threads.iter_mut().flatten() {
        if r.one_in(2) && s.iter().all(|e: &J| e.get("refs").is_none()) {
            for i in (0..s.len()).rev() {
                let len = s[i].ints("data").len();
                let op = s[i].str("op").to_string();
                let may = match op.as_str() {
                    "hash" => len > 0 && s[i].str("alg").starts_with("md"),
                    "bulk" => len > 0,
                    "encmsg" | "decmsg" => s[i].str("pad") != "oaep",
                    _ => false,
                };
                let J::Obj(f) = &s[i] else { continue };
                if may && r.one_in(2) {
                    let at = if op.ends_with("msg") || s[i].str("dir") == "dec" { 1 } else { r.r(1, len) };
                    let mut f: Vec<(String, J)> = f.iter().filter(|(k, _)| k != "op").cloned().collect();
                    f.push(("op".into(), json::s(&format!("d{op}"))));
                    f.push(("at".into(), J::Int(at as i64)));
                    s.insert(i, J::Obj(f));
                }
            }
        }
    }
    let mut nests = vec![];
    if nested {
        for _ in 0..n {
            nests.push((0..r.r(1, 9)).map(|_| { let most = r.pick(&[1, 2, 8, 70]); (r.r(0, most), r.r(0, 4)) }).collect());
        }
    }
    let mut order = vec![];
    let relay = if !nested && r.one_in(5) { (r.u() >> 4) as i64 | 1 } else { 0 };
    if !nested && relay == 0 && r.one_in(2) {
        let mut left: Vec<usize> = threads.iter().map(|t: &Vec<Session>| t.iter().map(|s| s.len()).sum()).collect();
        while left.iter().any(|&x| x > 0) {
            let t = r.b(n);
            if left[t] > 0 {
                left[t] -= 1;
                order.push(t);
            }
        }
    }
    Round { threads, order, nests, relay }
}
/// rounds FILE START STEP STATUSFILE: runs the rounds of FILE, prints their replies
pub fn run_file(a: &[String]) {
    use std::io::BufRead;
    let (start, step) = (a[1].parse::<usize>().unwrap(), a[2].parse::<usize>().unwrap());
    let f = std::fs::File::create(&a[3]).unwrap();
    for (i, line) in std::io::BufReader::new(std::fs::File::open(&a[0]).unwrap()).lines().enumerate() {
        if i % step != start {
            continue;
        }
        f.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
        let r = Round::from_json(&json::parse(&line.unwrap()));
        println!("{}", json::obj(vec![("i", J::Int(i as i64)), ("re", replies(&r.run()))]));
    }
    println!("DONE");
}
/// gen_rounds SEED FROM TO SMALL
pub fn print(a: &[String]) {
    for i in a[1].parse::<u64>().unwrap()..a[2].parse::<u64>().unwrap() {
        println!("{}", make(a[0].parse().unwrap(), i, a[3] == "1").to_json());
    }
}
/// hunt_rounds SEED START STEP SECONDS STATUSFILE: random rounds; prints sessions whose replies the mirror does not expect
pub fn search(a: &[String]) {
    let seed = a[0].parse::<u64>().unwrap();
    let (start, step) = (a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap());
    let end = Instant::now() + Duration::from_secs_f64(a[3].parse().unwrap());
    let f = std::fs::File::create(&a[4]).unwrap();
    let (mut sessions, mut events, mut idx, mut suspects) = (0u64, 0u64, start, 0);
    while Instant::now() < end && suspects < 6 {
        f.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let mut r = make(seed, idx, false);
        if r.order.is_empty() && r.nests.is_empty() && r.relay == 0 {
            // long enough to overlap
            for t in &mut r.threads {
                let once = t.clone();
                while t.len() < 12 && once.iter().all(|s| s.iter().all(|e| !matches!(e.str("op"), "raw" | "encmsg" | "decmsg"))) {
                    t.extend(once.clone());
                }
            }
        }
        // one session very often, now and then: long histories
        if idx / step % 12 == 11 {
            let much = idx / step % 96 == 95;
            let (most, till) = (if much { 70_000 } else { 6_000 }, Instant::now() + Duration::from_millis(if much { 1500 } else { 120 }));
            let t = &make(seed, idx, true).threads[0][0];
            let mut before: Option<Vec<J>> = None;
            for i in 0..most {
                if i % 16 == 0 && Instant::now() > till {
                    break;
                }
                let (mut objs, mut past) = (vec![], vec![]);
                for e in t {
                    match ops::reply(&mut objs, e, &past) {
                        Some(r) => past.push(r),
                        None => break,
                    }
                }
                sessions += 1;
                events += past.len() as u64;
                if before.as_ref() != Some(&past) {
                    if hunt::suspicious(t, &past) {
                        suspects += 1;
                        println!("{}", hunt::show_suspect(t, &past));
                        break;
                    }
                    before = Some(past);
                }
            }
        }
        let got = r.run();
        for (t, g) in r.threads.iter().zip(&got) {
            for (s, past) in t.iter().zip(g) {
                sessions += 1;
                events += past.len() as u64;
                if hunt::suspicious(s, past) {
                    suspects += 1;
                    println!("{}", hunt::show_suspect(s, past));
                }
            }
        }
        idx += step;
    }
    println!("DONE {sessions} {events} 0");
}
