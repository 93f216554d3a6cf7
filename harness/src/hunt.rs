//! Bulk search for suspicious sessions. Sessions are made by the generators in make.rs, run against the
//! real crate and compared with the mirror; a session whose replies differ from the mirror's is printed.
//! It is only a suspect: the specification decides about it.
use crate::fixed;
use crate::make;
use crate::json::{self, J};
use crate::mirror::{self, Nat};
use crate::ops;
use std::cmp::Ordering;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub enum M {
    Aes(Box<mirror::Aes>),
    Rc2(Box<mirror::Rc2>),
    Rc5(Box<mirror::Rc5>),
    Toy(u8, usize),
    Fin(Vec<u8>, usize),
    Pat(u64, u64),
    Rc4(Box<mirror::Rc4>),
    Bytes(Vec<u8>),
    Big(Nat),
    /// modulus, exponent if known, exponent of the matching key if known
    Rsa(Nat, Option<Nat>, Option<Nat>, bool),
}
enum X {
    Ok(Vec<Vec<i64>>),
    Err,
    Panic,
    /// fine / not fine, already decided
    Is(bool),
}
fn i(b: &[u8]) -> Vec<i64> {
    b.iter().map(|&x| x as i64).collect()
}
fn picked(d: &[u8], gaps: &[i64]) -> Vec<i64> {
    let mut at = 0;
    gaps.iter().map(|g| { at += *g as usize + 1; d.get(at - 1).map_or(-1, |b| *b as i64) }).collect()
}
fn one(b: &[u8]) -> X {
    X::Ok(vec![i(b)])
}
impl M {
    fn n(&self) -> usize {
        match self {
            M::Aes(_) => 16,
            M::Toy(_, n) => *n,
            _ => 8,
        }
    }
    fn enc(&self, b: &[u8]) -> Vec<u8> {
        match self {
            M::Aes(c) => c.enc(b.try_into().unwrap()).to_vec(),
            M::Rc2(c) => c.enc(b.try_into().unwrap()).to_vec(),
            M::Rc5(c) => c.enc(b.try_into().unwrap()).to_vec(),
            M::Toy(k, n) => (0..*n).map(|i| b[(i + 1) % n].wrapping_add(*k).wrapping_add((7 * (i + 1)) as u8)).collect(),
            _ => vec![],
        }
    }
    fn dec(&self, b: &[u8]) -> Vec<u8> {
        match self {
            M::Aes(c) => c.dec(b.try_into().unwrap()).to_vec(),
            M::Rc2(c) => c.dec(b.try_into().unwrap()).to_vec(),
            M::Rc5(c) => c.dec(b.try_into().unwrap()).to_vec(),
            M::Toy(k, n) => {
                let mut o = vec![0; *n];
                for i in 0..*n {
                    o[(i + 1) % n] = b[i].wrapping_sub(*k).wrapping_sub((7 * (i + 1)) as u8);
                }
                o
            }
            _ => vec![],
        }
    }
    fn bulk(&self, mode: &str, iv: &[u8], dir: &str, data: &[u8]) -> X {
        let n = self.n();
        let enc = dir == "enc";
        let mut d = data.to_vec();
        if enc {
            let p = n - d.len() % n;
            d.extend(vec![p as u8; p]);
        } else if d.is_empty() || d.len() % n != 0 {
            return X::Panic;
        }
        let (mut out, mut log) = (vec![], vec![]);
        let mut st = iv.to_vec();
        for b in d.chunks(n) {
            let xor = |a: &[u8], b: &[u8]| -> Vec<u8> { a.iter().zip(b).map(|(x, y)| x ^ y).collect() };
            let tweak: Vec<u8> = if mode == "ctr" { (0..n).map(|i| st[0].wrapping_add((i + 1) as u8)).collect() } else { vec![] };
            let o = match (mode, enc) {
                ("ecb", true) => self.enc(b),
                ("ecb", false) => self.dec(b),
                ("cbc", true) => {
                    st = self.enc(&xor(b, &st));
                    st.clone()
                }
                ("cbc", false) => {
                    let o = xor(&self.dec(b), &st);
                    st = b.to_vec();
                    o
                }
                (_, e) => {
                    st[0] = st[0].wrapping_add(1);
                    if e { self.enc(&xor(b, &tweak)) } else { xor(&self.dec(b), &tweak) }
                }
            };
            log.push(enc as i64);
            log.extend(i(b));
            log.extend(i(&o));
            out.extend(o);
        }
        if !enc {
            match mirror::pkcs_unpad(&out[out.len() - n..]) {
                Some(k) => out.truncate(out.len() - n + k),
                None => return X::Panic,
            }
        }
        X::Ok(vec![i(&out), log])
    }
}

fn pad_fits(pad: &str, len: usize, k: usize) -> bool {
    if pad == "oaep" { len + 66 <= k } else { len + 2 <= k }
}
fn pad_decode(pad: &str, em: &[u8], k: usize) -> Option<Vec<u8>> {
    if pad == "oaep" {
        return mirror::oaep_decode(b"", em, k);
    }
    let s = em.iter().position(|&x| x != 0)?;
    if em[s] == 1 { Some(em[s + 1..].to_vec()) } else { None }
}
fn fixed(x: &Nat, k: usize) -> Vec<u8> {
    let b = x.to_be();
    let mut o = vec![0; k.saturating_sub(b.len())];
    o.extend(b);
    o
}
fn amount(e: &J) -> u64 {
    let n = e.ints("n");
    (n[0] as u64) << 16 | n[1] as u64
}
fn chars(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as i64).collect()
}
fn text(e: &J, k: &str) -> String {
    e.ints(k).into_iter().map(|c| char::from_u32(c as u32).unwrap()).collect()
}

/// does the recorded reply look right?
fn fine(st: &mut Vec<M>, e: &J, r: &J) -> bool {
    let k = r.str("k");
    let ok = k == "ok";
    let o = (e.int("obj") - 1).max(0) as usize;
    let p = (e.int("other") - 1).max(0) as usize;
    let data = || if r.get("data").is_some() { r.bytes("data") } else { e.bytes("data") };
    macro_rules! big {
        ($k:expr) => {
            match &st[$k] {
                M::Big(b) => b.clone(),
                _ => return true,
            }
        };
    }
    macro_rules! assign {
        ($x:expr) => {{
            let x: Nat = $x;
            let b = x.to_be();
            st[o] = M::Big(x);
            one(&b)
        }};
    }
    macro_rules! create {
        ($x:expr) => {{
            let x: Nat = $x;
            let b = x.to_be();
            st.push(M::Big(x));
            one(&b)
        }};
    }
    let x = match e.str("op") {
        "aes" => {
            st.push(M::Aes(Box::new(mirror::Aes::new(&e.bytes("key")))));
            X::Ok(vec![])
        }
        "rc2" => {
            let (key, bits) = (e.bytes("key"), e.int("bits"));
            if key.is_empty() || key.len() > 128 || !(1..=1024).contains(&bits) {
                X::Panic
            } else {
                st.push(M::Rc2(Box::new(mirror::Rc2::new(&key, bits as usize))));
                X::Ok(vec![])
            }
        }
        "rc5" => {
            let key = e.bytes("key");
            if key.len() > 255 {
                X::Panic
            } else {
                st.push(M::Rc5(Box::new(mirror::Rc5::new(&key, e.int("rounds") as usize))));
                X::Ok(vec![])
            }
        }
        "toy" => {
            st.push(M::Toy(e.bytes("key")[0], e.int("n") as usize));
            X::Ok(vec![])
        }
        "block" => {
            let d = data();
            one(&if e.str("dir") == "enc" { st[o].enc(&d) } else { st[o].dec(&d) })
        }
        "warm" => X::Ok(vec![]),
        "bulk" => st[o].bulk(e.str("mode"), &e.bytes("iv"), e.str("dir"), &data()),
        "pad" => {
            let (mut d, n) = (data(), e.int("n") as usize);
            if d.len() >= n {
                X::Panic
            } else {
                let fill = n - d.len();
                if e.str("pad") == "pkcs" {
                    d.extend(vec![fill as u8; fill]);
                } else {
                    d.push(0x80);
                    d.resize(n, 0);
                }
                one(&d)
            }
        }
        "unpad" => {
            let mut d = data();
            if e.str("pad") == "pkcs" {
                mirror::pkcs_unpad(&d).map_or(X::Panic, |n| X::Ok(vec![vec![n as i64]]))
            } else {
                match mirror::bit_unpad(&d) {
                    None => X::Panic,
                    Some(n) => {
                        d[n..].fill(0);
                        X::Ok(vec![vec![n as i64], i(&d)])
                    }
                }
            }
        }
        "fin" => {
            st.push(M::Fin(e.bytes("key"), 0));
            X::Ok(vec![])
        }
        "pat" => {
            st.push(M::Pat(e.bytes("key")[0] as u64, 0));
            X::Ok(vec![])
        }
        "rc4" => {
            let key = e.bytes("key");
            if key.is_empty() {
                X::Panic
            } else {
                st.push(M::Rc4(Box::new(mirror::Rc4::new(&key))));
                X::Ok(vec![])
            }
        }
        op @ ("picks" | "keypicks") => {
            let gaps = e.ints("gaps");
            let mut d = if op == "picks" { data() } else { vec![0; gaps.iter().map(|g| *g as usize + 1).sum()] };
            let want: usize = gaps.iter().map(|g| *g as usize + 1).sum();
            d.truncate(want);
            match &mut st[o] {
                M::Fin(ks, at) => {
                    if ks.len() - *at < d.len() {
                        *at = ks.len();
                        X::Panic
                    } else {
                        for b in &mut d {
                            *b ^= ks[*at];
                            *at += 1;
                        }
                        X::Ok(vec![picked(&d, &gaps)])
                    }
                }
                M::Pat(seed, at) => {
                    for b in &mut d {
                        let q = *at;
                        *b ^= (*seed + q % 251 + q / 256 % 253 + 7 * (q / 65536)) as u8;
                        *at += 1;
                    }
                    X::Ok(vec![picked(&d, &gaps)])
                }
                M::Rc4(c) => {
                    for b in &mut d {
                        *b ^= c.next();
                    }
                    X::Ok(vec![picked(&d, &gaps)])
                }
                _ => return true,
            }
        }
        op @ ("piece" | "keys" | "skip") => {
            let n = e.int("n") as usize;
            let mut d = if op == "piece" { data() } else { vec![0; n] };
            d.truncate(n);
            match &mut st[o] {
                M::Fin(ks, at) => {
                    if ks.len() - *at < n {
                        *at = ks.len();
                        X::Panic
                    } else {
                        for b in &mut d {
                            *b ^= ks[*at];
                            *at += 1;
                        }
                        one(&d)
                    }
                }
                M::Pat(seed, at) => {
                    for b in &mut d {
                        let q = *at;
                        *b ^= (*seed + q % 251 + q / 256 % 253 + 7 * (q / 65536)) as u8;
                        *at += 1;
                    }
                    if op == "skip" { X::Ok(vec![]) } else { one(&d) }
                }
                M::Rc4(c) => {
                    for b in &mut d {
                        *b ^= c.next();
                    }
                    if op == "skip" { X::Ok(vec![]) } else { one(&d) }
                }
                _ => return true,
            }
        }
        "rc4enc" | "rc4dec" => {
            let (key, mut d) = (e.bytes("key"), data());
            if key.is_empty() {
                X::Panic
            } else {
                let mut c = mirror::Rc4::new(&key);
                d.iter_mut().for_each(|b| *b ^= c.next());
                one(&d)
            }
        }
        "dhash" | "dbulk" | "dencmsg" | "ddecmsg" => X::Panic,
        "hash" => one(&mirror::hash(e.str("alg"), &data())),
        "from_words" => {
            st.push(M::Bytes(e.arrs("words").concat()));
            X::Ok(vec![])
        }
        "from_hex" => {
            let t = text(e, "text");
            if t.len() as i64 == e.int("bits") / 4 && t.bytes().all(|c| c.is_ascii_hexdigit()) {
                st.push(M::Bytes(hex::decode(t).unwrap()));
                X::Ok(vec![])
            } else {
                X::Err
            }
        }
        "from_hash" => {
            st.push(M::Bytes(mirror::hash(e.str("alg"), &data())));
            X::Ok(vec![])
        }
        "to_bytes" => match &st[o] {
            M::Bytes(b) => one(b),
            _ => return true,
        },
        "to_words" => match &st[o] {
            M::Bytes(b) => X::Ok(b.chunks(if b.len() > 32 { 8 } else { 4 }).map(i).collect()),
            _ => return true,
        },
        "equal" => match (&st[o], &st[p]) {
            (M::Bytes(a), M::Bytes(b)) => X::Ok(vec![vec![(a == b) as i64]]),
            _ => return true,
        },
        "be" | "u128" => create!(Nat::from_be(&data())),
        "le" => {
            let mut d = data();
            d.reverse();
            create!(Nat::from_be(&d))
        }
        "copy" => create!(big!(o)),
        "add" => assign!(big!(o).add(&big!(p))),
        "addb" => assign!(big!(o).add(&Nat::from_be(&[amount(e) as u8]))),
        "sub" | "diff" | "rem" => {
            let (a, b) = (big!(o), big!(p));
            if e.str("op") == "rem" {
                if b.0.is_empty() {
                    return true;
                }
                assign!(a.rem(&b))
            } else if a.cmp(&b) == Ordering::Less {
                return true;
            } else if e.str("op") == "sub" {
                assign!(a.sub(&b))
            } else {
                create!(a.sub(&b))
            }
        }
        "shl" => assign!(big!(o).shl(amount(e))),
        "shr" => assign!(big!(o).shr(amount(e))),
        op @ ("set" | "clear") => {
            let (a, n) = (big!(o), amount(e));
            if n / 8 < a.bits().div_ceil(8) { assign!(a.set_bit(n, op == "set")) } else { X::Panic }
        }
        "bytes" => one(&big!(o).to_be()),
        "bits" => {
            let n = big!(o).bits();
            X::Ok(vec![i(&n.to_le_bytes()[..(64 - n.leading_zeros() as usize).div_ceil(8)])])
        }
        "bit" => X::Ok(vec![vec![big!(o).bit(amount(e)) as i64]]),
        "as_u128" => {
            let a = big!(o);
            if a.bits() > 128 { X::Err } else { one(&fixed(&a, 16)) }
        }
        "cmp" => {
            let c = big!(o).cmp(&big!(p)) as i64;
            let b = |x: bool| x as i64;
            X::Ok(vec![vec![c + 1, b(c == 0), b(c < 0), b(c <= 0), b(c > 0), b(c >= 0)]])
        }
        "pem_parse" => mirror::pem_parse(&text(e, "text")).map_or(X::Err, |(l, d)| X::Ok(vec![chars(&l), i(&d)])),
        "pem_write" => X::Ok(vec![chars(&mirror::pem_write(&text(e, "label"), &data()))]),
        "pem_trip" => X::Ok(vec![e.ints("label"), i(&data())]),
        "der" => {
            let mut open = false;
            match mirror::der(&data(), &mut open) {
                None => X::Err,
                Some(_) if open && k == "err" => return true,
                Some(f) => X::Ok(vec![f]),
            }
        }
        "create" => {
            let (a, b, c) = (Nat::from_be(&e.bytes("p")), Nat::from_be(&e.bytes("q")), Nat::from_be(&e.bytes("e")));
            let n = a.mul(&b);
            if a.bits() > 128 || b.bits() > 128 || c.bits() > 128 || n.bits() > 128 || e.int("_bad") == 1 {
                X::Panic
            } else {
                st.push(M::Rsa(n.clone(), None, Some(c.clone()), true));
                st.push(M::Rsa(n, Some(c), None, false));
                X::Ok(vec![])
            }
        }
        "kclone" => match &st[o] {
            M::Rsa(n, x, y, p) => {
                let c = M::Rsa(n.clone(), x.clone(), y.clone(), *p);
                st.push(c);
                X::Ok(vec![])
            }
            _ => return true,
        },
        "keq" => match (&st[o], st.get(e.int("other") as usize - 1)) {
            (M::Rsa(n, x, y, p), Some(M::Rsa(m, z, w, q))) => {
                if p != q {
                    return true;
                }
                if n != m || x.is_some() && z.is_some() && x != z {
                    X::Ok(vec![vec![0, 1]])
                } else if x == z && (x.is_some() || y == w) {
                    X::Ok(vec![vec![1, 0]])
                } else {
                    return true;
                }
            }
            _ => return true,
        },
        "der_eq" => {
            let mut open = false;
            match (mirror::der(&data(), &mut open), mirror::der(&e.bytes("data2"), &mut open)) {
                (Some(_), Some(_)) if open && k == "err" => return true,
                (Some(a), Some(b)) => X::Ok(vec![if a == b { vec![1, 0, 1] } else { vec![0, 1, 1] }]),
                _ => X::Err,
            }
        }
        op @ ("priv" | "pub") => {
            let private = op == "priv";
            let f = if text(e, "label") == if private { "PRIVATE KEY" } else { "PUBLIC KEY" } { mirror::key_file(private, &data()) } else { mirror::File::No };
            match f {
                mirror::File::Yes(n, x) => {
                    st.push(M::Rsa(n, Some(x), None, private));
                    X::Ok(vec![])
                }
                mirror::File::No => X::Err,
                mirror::File::Open(n, x) => {
                    if ok {
                        st.push(M::Rsa(n, Some(x), None, private));
                    }
                    X::Is(ok || k == "err")
                }
            }
        }
        "raw" => match &st[o] {
            M::Rsa(n, x, y, _) => {
                if !ok {
                    return false;
                }
                let m = Nat::from_be(&data());
                let got = r.arrs("v").concat();
                let g = Nat::from_be(&got);
                if g.to_be() != got {
                    return false;
                }
                X::Is(match (x, y) {
                    (Some(x), _) => m.pow_mod(x, n) == g,
                    (None, Some(y)) => g.cmp(n) == Ordering::Less && g.pow_mod(y, n) == m.rem(n),
                    _ => true,
                })
            }
            _ => return true,
        },
        "encmsg" => match &st[o] {
            M::Rsa(n, _, _, _) => {
                let k = n.to_be().len();
                let m = data();
                if !pad_fits(e.str("pad"), m.len(), k) {
                    X::Panic
                } else {
                    let c = r.arrs("v").concat();
                    let d = Nat::from_hex(e.str("_wx"));
                    let c2 = Nat::from_be(&c);
                    X::Is(ok && c.len() == k && c2.cmp(n) == Ordering::Less && pad_decode(e.str("pad"), &fixed(&c2.pow_mod(&d, n), k), k) == Some(m))
                }
            }
            _ => return true,
        },
        "decmsg" => match &st[o] {
            M::Rsa(n, _, _, _) => {
                let k = n.to_be().len();
                let c = data();
                let cn = Nat::from_be(&c);
                let em = cn.pow_mod(&Nat::from_hex(e.str("_wx")), n);
                match pad_decode(e.str("pad"), &fixed(&em, k), k) {
                    None => X::Panic,
                    Some(m) => {
                        if r.str("k") == "panic" && !(c.len() == k && cn.cmp(n) == Ordering::Less) {
                            return true;
                        }
                        one(&m)
                    }
                }
            }
            _ => return true,
        },
        "oaep_enc" => {
            let (m, n) = (data(), e.int("n") as usize);
            if m.len() + 66 > n {
                X::Panic
            } else {
                X::Is(ok && mirror::oaep_decode(&e.bytes("label"), &r.arrs("v").concat(), n) == Some(m))
            }
        }
        "oaep_dec" => mirror::oaep_decode(&e.bytes("label"), &data(), e.int("n") as usize).map_or(X::Err, |m| one(&m)),
        _ => return true,
    };
    match x {
        X::Is(b) => b,
        X::Err => k == "err",
        X::Panic => k == "panic",
        X::Ok(v) => {
            ok && match r.get("v") {
                Some(J::Arr(w)) => {
                    w.len() == v.len()
                        && w.iter().zip(&v).all(|(a, b)| match a {
                            J::Arr(a) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches!(x, J::Int(z) if z == y)),
                            _ => false,
                        })
                }
                _ => false,
            }
        }
    }
}

/// the replies, and whether the session is suspicious
pub fn run(ev: &[J]) -> (Vec<J>, bool) {
    let (mut objs, mut st, mut past) = (vec![], vec![], vec![]);
    for e in ev {
        let Some(r) = ops::reply(&mut objs, e, &past) else { return (past, false) };
        let ok = fine(&mut st, e, &r);
        past.push(r);
        if !ok {
            return (past, true);
        }
    }
    (past, false)
}
/// do these replies look wrong?
pub fn suspicious(ev: &[J], past: &[J]) -> bool {
    let mut st = vec![];
    ev.iter().zip(past).any(|(e, r)| !fine(&mut st, e, r))
}
fn show(ev: &[J]) -> String {
    json::obj(vec![("ev", J::Arr(ev.to_vec()))]).to_string()
}
/// a suspect: the calls and the replies seen
pub fn show_suspect(ev: &[J], past: &[J]) -> String {
    json::obj(vec![("ev", J::Arr(ev.to_vec())), ("re", J::Arr(past.to_vec()))]).to_string()
}

/// hunt PROPERTY SEED START STEP SECONDS STATUSFILE: first the enumerated sessions, then random ones for SECONDS
pub fn main(a: &[String]) {
    let (prop, seed) = (a[0].as_str(), a[1].parse::<u64>().unwrap());
    let (start, step) = (a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let f = std::fs::File::create(&a[5]).unwrap();
    let (mut sessions, mut events, mut suspects) = (0u64, 0u64, 0);
    let mut go = |idx: u64, ev: &[J], f: &std::fs::File| -> bool {
        f.write_all_at(&idx.to_le_bytes(), 0).unwrap();
        let (past, bad) = run(ev);
        sessions += 1;
        events += past.len() as u64;
        if bad {
            suspects += 1;
            println!("{}", show_suspect(ev, &past));
        }
        suspects >= 3
    };
    let mut enumerated = 0u64;
    // on a slow library not all of them are run
    let began = Instant::now();
    let mut sink = fixed::Sink {
        at: 0,
        seed,
        stop: false,
        want: &mut |i, _| i % step == start && began.elapsed().as_secs() < 200,
        take: &mut |i, ev| {
            enumerated += 1;
            go(i | 1 << 63, &ev, &f)
        },
    };
    fixed::all(prop, &mut sink);
    let stop = sink.stop;
    let end = Instant::now() + Duration::from_secs_f64(a[4].parse().unwrap());
    let mut idx = start;
    while !stop && Instant::now() < end {
        let ev = make::session(prop, seed, idx, false);
        if go(idx, &ev, &f) {
            break;
        }
        idx += step;
    }
    println!("DONE {sessions} {events} {enumerated}");
}
/// replay FILE START STEP STATUSFILE: runs the scripts of FILE (one per line, [{"e": call, "r": specified reply}, ...]) and
/// prints those in which a reply is not the specified one
pub fn replay(a: &[String]) {
    use std::io::BufRead;
    let (start, step) = (a[1].parse::<usize>().unwrap(), a[2].parse::<usize>().unwrap());
    let f = std::fs::File::create(&a[3]).unwrap();
    let (mut sessions, mut events, mut suspects) = (0u64, 0u64, 0);
    for (i, line) in std::io::BufReader::new(std::fs::File::open(&a[0]).unwrap()).lines().enumerate() {
        if i % step != start {
            continue;
        }
        f.write_all_at(&(i as u64).to_le_bytes(), 0).unwrap();
        let J::Arr(script) = json::parse(&line.unwrap()) else { continue };
        let (mut objs, mut past) = (vec![], vec![]);
        sessions += 1;
        let mut bad = false;
        for x in &script {
            let (e, want) = (x.get("e").unwrap(), x.get("r").unwrap());
            let r = ops::reply(&mut objs, e, &past);
            events += 1;
            let (k, same) = match &r {
                Some(r) => (r.str("k"), r.get("v") == want.get("v")),
                None => ("missing", false),
            };
            bad = !match want.str("k") {
                "ok" => k == "ok" && same,
                "ok or err" => k == "err" || k == "ok" && same,
                "ok or panic" => k == "panic" || k == "ok" && same,
                w => k == w,
            };
            past.extend(r);
            if bad {
                break;
            }
        }
        if bad {
            let ev: Vec<J> = script.iter().map(|x| x.get("e").unwrap().clone()).collect();
            println!("{}", show_suspect(&ev, &past));
            suspects += 1;
            if suspects >= 3 {
                break;
            }
        }
    }
    println!("DONE {sessions} {events} 0");
}
/// gen PROPERTY SEED FROM TO SMALL: print sessions
pub fn print(a: &[String]) {
    for i in a[2].parse::<u64>().unwrap()..a[3].parse::<u64>().unwrap() {
        println!("{}", show(&make::session(&a[0], a[1].parse().unwrap(), i, a[4] == "1")));
    }
}
/// fixed PROPERTY SEED LEVEL [INDEX]: print the enumerated sessions up to a level, or one of them
pub fn print_fixed(a: &[String]) {
    let level: u8 = a[2].parse().unwrap();
    let only: Option<u64> = a.get(3).map(|x| x.parse().unwrap());
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    let mut sink = fixed::Sink {
        at: 0,
        seed: a[1].parse().unwrap(),
        stop: false,
        want: &mut |i, l| l <= level && only.is_none_or(|o| o == i),
        take: &mut |_, ev| {
            writeln!(out, "{}", show(&ev)).unwrap();
            false
        },
    };
    fixed::all(&a[0], &mut sink);
}
