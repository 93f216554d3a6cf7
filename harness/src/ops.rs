//! Interpreter of call scripts against the real crate (public API only).
use crate::json::{self, J};
use crate::mirror;
use cryptography::aes::{Aes, Key128, Key192, Key256};
use cryptography::big::BigUint;
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::pem::{asn1::Asn1, PEM};
use cryptography::rsa::{self, PaddingScheme, RsaEncryption, RsaPadding};
use cryptography::sha;
use cryptography::{Block, BlockCipher, BlockCipherMode, BlockEncryption, EcbMode, StreamCipher};
use hex::FromHex;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------ calls back into the caller's code
// The library calls code of its caller: data iterators, ciphers, modes, padding schemes, output functions. In all of
// them the harness calls tick(); at the n-th one of a call it can panic, or call the library again.
type Hook = (usize, Option<Box<dyn FnOnce()>>);
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static HOOKS: RefCell<Vec<Hook>> = const { RefCell::new(vec![]) };
}
/// puts the hooks back that were set aside, or cuts the list to the length it had
struct Back(Option<Vec<Hook>>, usize);
impl Drop for Back {
    fn drop(&mut self) {
        match self.0.take() {
            Some(v) => drop(HOOKS.replace(v)),
            None => HOOKS.with_borrow_mut(|h| h.truncate(self.1)),
        }
        ON.set(HOOKS.with_borrow(|h| !h.is_empty()));
    }
}
pub fn tick() {
    if !ON.get() {
        return;
    }
    let mut due = vec![];
    HOOKS.with_borrow_mut(|h| {
        for (left, f) in h {
            *left = left.saturating_sub(1);
            if *left == 0 {
                due.extend(f.take());
            }
        }
    });
    if !due.is_empty() {
        // calls made by the caller's code are calls of their own
        let _back = Back(Some(HOOKS.take()), 0);
        ON.set(false);
        due.into_iter().for_each(|f| f());
    }
}
fn ticking() -> bool {
    ON.get()
}
/// runs `body` with `f` called at its n-th call back
pub fn during<T>(n: usize, f: Box<dyn FnOnce()>, body: impl FnOnce() -> T) -> T {
    if n == 0 {
        return body();
    }
    let before = HOOKS.with_borrow_mut(|h| {
        h.push((n, Some(f)));
        h.len() - 1
    });
    let _back = Back(None, before);
    ON.set(true);
    body()
}

// ------------------------------------------------------------------ environment: ciphers and modes
pub struct Toy<const N: usize>(pub u8);
impl<const N: usize> BlockCipher<N> for Toy<N> {
    fn encrypt(&self, b: Block<N>) -> Block<N> {
        std::array::from_fn(|i| b[(i + 1) % N].wrapping_add(self.0).wrapping_add((7 * (i + 1)) as u8))
    }
    fn decrypt(&self, b: Block<N>) -> Block<N> {
        let mut o = [0; N];
        for i in 0..N {
            o[(i + 1) % N] = b[i].wrapping_sub(self.0).wrapping_sub((7 * (i + 1)) as u8);
        }
        o
    }
}
pub type Log = Rc<RefCell<Vec<i64>>>;
fn note<const N: usize>(log: &Log, d: i64, a: &[u8; N], b: &[u8; N]) {
    tick();
    let mut l = log.borrow_mut();
    l.push(d);
    l.extend(a.iter().map(|&x| x as i64));
    l.extend(b.iter().map(|&x| x as i64));
}
/// a cipher that notes its calls when `on`
struct Spy<'a, C> {
    c: &'a C,
    log: Log,
    on: bool,
}
impl<C: BlockCipher<N>, const N: usize> BlockCipher<N> for Spy<'_, C> {
    fn encrypt(&self, b: Block<N>) -> Block<N> {
        let o = self.c.encrypt(b);
        if self.on {
            note(&self.log, 1, &b, &o);
        }
        o
    }
    fn decrypt(&self, b: Block<N>) -> Block<N> {
        let o = self.c.decrypt(b);
        if self.on {
            note(&self.log, 0, &b, &o);
        }
        o
    }
}
struct Cbc<const N: usize> {
    prev: Block<N>,
    log: Log,
}
impl<const N: usize> BlockCipherMode<N> for Cbc<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let o = c.encrypt(std::array::from_fn(|i| b[i] ^ self.prev[i]));
        self.prev = o;
        note(&self.log, 1, &b, &o);
        o
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let d = c.decrypt(b);
        let o = std::array::from_fn(|i| d[i] ^ self.prev[i]);
        self.prev = b;
        note(&self.log, 0, &b, &o);
        o
    }
}
struct Ctr<const N: usize> {
    c: u8,
    log: Log,
}
impl<const N: usize> Ctr<N> {
    fn tweak(&mut self) -> Block<N> {
        let t = std::array::from_fn(|i| self.c.wrapping_add((i + 1) as u8));
        self.c = self.c.wrapping_add(1);
        t
    }
}
impl<const N: usize> BlockCipherMode<N> for Ctr<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let t = self.tweak();
        let o = c.encrypt(std::array::from_fn(|i| b[i] ^ t[i]));
        note(&self.log, 1, &b, &o);
        o
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        let t = self.tweak();
        let d = c.decrypt(b);
        let o = std::array::from_fn(|i| d[i] ^ t[i]);
        note(&self.log, 0, &b, &o);
        o
    }
}
/// bulk call; output bytes go to `out` as they are delivered
pub fn bulk<C: BlockCipher<N>, const N: usize>(c: &C, mode: &str, iv: &[u8], dir: &str, data: &[u8]) -> (Vec<u8>, Vec<i64>) {
    let log: Log = Rc::new(RefCell::new(vec![]));
    let mut out = vec![];
    let cipher = Spy { c, log: log.clone(), on: mode == "ecb" };
    let enc = dir == "enc";
    match mode {
        "ecb" if enc => BlockEncryption::encrypt(cipher, EcbMode::<N>, data, |b| {
            tick();
            out.push(b)
        }),
        "ecb" => BlockEncryption::decrypt(cipher, EcbMode::<N>, data, |b| {
            tick();
            out.push(b)
        }),
        "cbc" => {
            let m = Cbc::<N> { prev: iv.try_into().unwrap(), log: log.clone() };
            if enc {
                BlockEncryption::encrypt(cipher, m, data, |b| {
            tick();
            out.push(b)
        })
            } else {
                BlockEncryption::decrypt(cipher, m, data, |b| {
            tick();
            out.push(b)
        })
            }
        }
        _ => {
            let m = Ctr::<N> { c: iv[0], log: log.clone() };
            if enc {
                BlockEncryption::encrypt(cipher, m, data, |b| {
            tick();
            out.push(b)
        })
            } else {
                BlockEncryption::decrypt(cipher, m, data, |b| {
            tick();
            out.push(b)
        })
            }
        }
    }
    let l = log.borrow().clone();
    (out, l)
}

#[macro_export]
macro_rules! with_n {
    ($n:expr, $N:ident, $body:expr, $else:expr; $($k:literal)*) => {
        match $n {
            $( $k => { const $N: usize = $k; $body } )*
            _ => $else,
        }
    };
}
#[macro_export]
macro_rules! pad_sizes {
    ($n:expr, $N:ident, $body:expr) => {
        $crate::with_n!($n, $N, $body, panic!("harness: block size not built in");
            1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43
            44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83
            84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117
            118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147
            148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177
            178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
            208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237
            238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 300 512 1000)
    };
}
#[macro_export]
macro_rules! toy_sizes {
    ($n:expr, $N:ident, $body:expr) => {
        $crate::with_n!($n, $N, $body, panic!("harness: block size not built in");
            1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 48 63 64 65 100 127 128 129
            200 253 254 255)
    };
}

// ------------------------------------------------------------------ objects
#[allow(clippy::large_enum_variant)]
pub enum Obj {
    Aes(Aes),
    Rc2(cryptography::rc2),
    Rc5(cryptography::rc5),
    Toy(u8, usize),
    Fin(StreamCipher<Box<dyn Iterator<Item = u8>>>),
    Rc4(cryptography::rc4),
    H160(sha::Hash160),
    H224(sha::Hash224),
    H256(sha::Hash256),
    H384(sha::Hash384),
    H512(sha::Hash512),
    Big(BigUint),
    Rsa(RsaEncryption, KeyVal),
}

/// a key as a value
pub enum KeyVal {
    Priv(rsa::PrivateKey),
    Pub(rsa::PublicKey),
}

pub enum R {
    Ok(Vec<J>),
    Err,
    /// a reply with extra fields for the event
    OkX(Vec<J>, Vec<(&'static str, J)>),
    /// the script refers to an object that was never created
    NoObj,
}
fn okb(b: &[u8]) -> R {
    R::Ok(vec![json::bytes(b)])
}

/// caller-supplied padding scheme
pub struct ToyPad;
impl PaddingScheme for ToyPad {
    fn encode(&self, _l: &[u8], m: &[u8], k: usize) -> Vec<u8> {
        tick();
        if m.len() + 2 > k {
            panic!("does not fit");
        }
        let mut o = vec![0; k - m.len() - 1];
        o.push(1);
        o.extend(m);
        o
    }
    fn decode(&self, _l: &[u8], em: &[u8], k: usize) -> Result<Vec<u8>, &'static str> {
        tick();
        if em.len() != k {
            return Err("length");
        }
        let s = em.iter().position(|&x| x != 0).ok_or("zero")?;
        if em[s] != 1 {
            return Err("separator");
        }
        Ok(em[s + 1..].to_vec())
    }
}

pub fn flat(a: &Asn1, o: &mut Vec<i64>) {
    let mut put = |t: i64, b: &[u8]| {
        o.extend([t, b.len() as i64]);
        o.extend(b.iter().map(|&x| x as i64));
    };
    match a {
        Asn1::Integer(b) => put(2, b),
        Asn1::OctetString(b) => put(4, b),
        Asn1::ObjectIdentifier(b) => put(6, b),
        Asn1::BitString(b, u) => {
            o.extend([3, *u as i64, b.len() as i64]);
            o.extend(b.iter().map(|&x| x as i64));
        }
        Asn1::Null => o.push(5),
        Asn1::Sequence(v) => {
            o.extend([48, v.len() as i64]);
            for x in v {
                flat(x, o);
            }
        }
    }
}

/// an iterator over references that tells nothing about its length
struct Plain<'a>(&'a [u8], usize);
impl<'a> Iterator for Plain<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        self.1 += 1;
        self.0.get(self.1 - 1)
    }
}
macro_rules! md_via {
    ($f:path, $d:expr, $via:expr) => {{
        let d: &[u8] = $d;
        match $via {
            _ if ticking() => $f(d.iter().inspect(|_| tick())),
            1 => {
                let v = d.to_vec();
                $f(&v)
            }
            2 => {
                let h = d.len() / 2;
                $f(d[..h].iter().chain(d[h..].iter()))
            }
            3 => $f(d.iter().filter(|_| true)),
            4 => $f(Plain(d, 0)),
            5 => {
                let q: std::collections::VecDeque<u8> = d.iter().copied().collect();
                $f(q.iter())
            }
            6 => {
                let l: std::collections::LinkedList<u8> = d.iter().copied().collect();
                $f(&l)
            }
            _ => $f(d),
        }
    }};
}
pub fn real_hash(alg: &str, d: &[u8], via: i64) -> Vec<u8> {
    match alg {
        "md2" => md_via!(cryptography::md2, d, via).to_vec(),
        "md4" => md_via!(cryptography::md4, d, via).to_vec(),
        "md5" => md_via!(cryptography::md5, d, via).to_vec(),
        "sha1" => <[u8; 20]>::from(sha::sha1(d)).to_vec(),
        "sha224" => <[u8; 28]>::from(sha::sha224(d)).to_vec(),
        "sha256" => <[u8; 32]>::from(sha::sha256(d)).to_vec(),
        "sha384" => <[u8; 48]>::from(sha::sha384(d)).to_vec(),
        "sha512" => <[u8; 64]>::from(sha::sha512(d)).to_vec(),
        _ => panic!("harness: unknown digest"),
    }
}
/// byte i of a generated long message
pub fn pattern(kind: i64, i: u64) -> u8 {
    match kind {
        0 => 0,
        1 => 0xff,
        _ => (i.wrapping_mul(0x9e3779b97f4a7c15) >> 56) as u8,
    }
}

fn far(e: &J) -> u64 {
    u64::from_be_bytes(e.bytes("far").try_into().unwrap())
}
fn amount(e: &J) -> u32 {
    let n = e.ints("n");
    (n[0] as u32) << 16 | n[1] as u32
}
fn text(e: &J, k: &str) -> String {
    e.ints(k).into_iter().map(|c| char::from_u32(c as u32).expect("harness: code point")).collect()
}
fn chars(s: &str) -> J {
    J::Arr(s.chars().map(|c| J::Int(c as i64)).collect())
}
fn from_words<T, const B: usize>(w: &[Vec<u8>], f: fn([u8; B]) -> T) -> Vec<T> {
    w.iter().map(|b| f(b.as_slice().try_into().unwrap())).collect()
}

macro_rules! cipher {
    ($o:expr, $c:ident, $N:ident, $body:expr) => {
        match $o {
            Obj::Aes($c) => {
                const $N: usize = 16;
                $body
            }
            Obj::Rc2($c) => {
                const $N: usize = 8;
                $body
            }
            Obj::Rc5($c) => {
                const $N: usize = 8;
                $body
            }
            Obj::Toy(k, n) => toy_sizes!(*n, $N, {
                let $c = &Toy::<$N>(*k);
                $body
            }),
            _ => panic!("harness: not a cipher"),
        }
    };
}

/// one call; panics of the library propagate
pub fn call(objs: &mut Vec<Obj>, e: &J) -> R {
    let i = (e.int("obj") - 1) as usize;
    let j = (e.int("other") - 1) as usize;
    if e.get("obj").is_some() && i >= objs.len() || e.get("other").is_some() && j >= objs.len() {
        return R::NoObj;
    }
    let data = || e.bytes("data");
    macro_rules! big {
        ($k:expr) => {
            match &objs[$k] {
                Obj::Big(b) => b.clone(),
                _ => panic!("harness: not a number"),
            }
        };
    }
    macro_rules! mutate {
        ($f:expr) => {{
            let f: &mut dyn FnMut(&mut BigUint) = &mut $f;
            match &mut objs[i] {
                Obj::Big(b) => {
                    f(b);
                    okb(&b.to_be_bytes())
                }
                _ => panic!("harness: not a number"),
            }
        }};
    }
    macro_rules! create {
        ($x:expr) => {{
            let x: BigUint = $x;
            let b = x.to_be_bytes();
            objs.push(Obj::Big(x));
            okb(&b)
        }};
    }
    macro_rules! push {
        ($x:expr) => {{
            let x = $x;
            objs.push(x);
            R::Ok(vec![])
        }};
    }
    match e.str("op") {
        // ---------------------------------------------------------- block
        "aes" => {
            let k = e.bytes("key");
            let w: Vec<u64> = k.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
            push!(Obj::Aes(match (k.len(), e.int("words")) {
                (16, 0) => Aes::with_128_bit_key(k.try_into().unwrap()),
                (24, 0) => Aes::with_192_bit_key(k.try_into().unwrap()),
                (32, 0) => Aes::with_256_bit_key(k.try_into().unwrap()),
                (16, _) => Aes::from(Key128::from([w[0], w[1]])),
                (24, _) => Aes::from(Key192::from([w[0], w[1], w[2]])),
                _ => Aes::from(Key256::from([w[0], w[1], w[2], w[3]])),
            }))
        }
        "rc2" => push!(Obj::Rc2(cryptography::rc2::from_key(&e.bytes("key"), e.int("bits") as u16))),
        "rc5" => push!(Obj::Rc5(cryptography::rc5::new(&e.bytes("key"), e.int("rounds") as u8))),
        "toy" => push!(Obj::Toy(e.bytes("key")[0], e.int("n") as usize)),
        "block" => {
            let d = data();
            let enc = e.str("dir") == "enc";
            cipher!(&objs[i], c, N, {
                let b: Block<N> = d.try_into().unwrap();
                okb(&if enc { c.encrypt(b) } else { c.decrypt(b) })
            })
        }
        "warm" => {
            let n = e.int("n");
            cipher!(&objs[i], c, N, {
                let mut b: Block<N> = std::array::from_fn(|k| k as u8);
                for k in 0..n {
                    b = if k % 3 == 1 { c.decrypt(b) } else { c.encrypt(b) };
                    b[0] ^= k as u8;
                }
                std::hint::black_box(b);
            });
            R::Ok(vec![])
        }
        "bulk" => {
            let d = data();
            let (mode, dir, iv) = (e.str("mode"), e.str("dir"), e.bytes("iv"));
            let (o, l) = cipher!(&objs[i], c, N, bulk::<_, N>(c, mode, &iv, dir, &d));
            R::Ok(vec![json::bytes(&o), json::ints(&l)])
        }
        "pad" => {
            let d = data();
            let pkcs = e.str("pad") == "pkcs";
            pad_sizes!(e.int("n"), N, okb(&if pkcs { PkcsPadding::<N>.pad(&d) } else { BitPadding::<N>.pad(&d) }))
        }
        "unpad" => {
            let d = data();
            let pkcs = e.str("pad") == "pkcs";
            pad_sizes!(e.int("n"), N, {
                let b: Block<N> = d.try_into().unwrap();
                if pkcs {
                    R::Ok(vec![json::ints(&[PkcsPadding::<N>.unpad(b) as i64])])
                } else {
                    let (o, n) = BitPadding::<N>.unpad(b);
                    R::Ok(vec![json::ints(&[n as i64]), json::bytes(&o)])
                }
            })
        }
        // ---------------------------------------------------------- stream
        "fin" => {
            let k = e.bytes("key");
            let it: Box<dyn Iterator<Item = u8>> = match e.int("via") {
                1 => Box::new(k.into_iter().filter(|_| true)),
                2 => {
                    let h = k.len() / 2;
                    let (a, b) = (k[..h].to_vec(), k[h..].to_vec());
                    Box::new(a.into_iter().chain(b))
                }
                _ => Box::new(k.into_iter()),
            };
            push!(Obj::Fin(StreamCipher::new(it)))
        }
        "pat" => {
            let seed = e.bytes("key")[0] as u64;
            let it = (0u64..).map(move |p| (seed + p % 251 + p / 256 % 253 + 7 * (p / 65536)) as u8);
            push!(Obj::Fin(StreamCipher::new(Box::new(it) as Box<dyn Iterator<Item = u8>>)))
        }
        "rc4" => push!(Obj::Rc4(cryptography::rc4::new(&e.bytes("key")))),
        "piece" => {
            let d = data();
            let n = e.int("n") as usize;
            let how = e.int("how");
            fn go(mut it: impl Iterator<Item = u8>, n: usize, all: bool, how: i64) -> Vec<i64> {
                let mut o: Vec<i64> = vec![];
                match how {
                    1 if all => it.for_each(|b| o.push(b as i64)),
                    2 if all => o.extend(it.collect::<Vec<u8>>().into_iter().map(|b| b as i64)),
                    3 => o.extend(it.by_ref().take(n).map(|b| b as i64)),
                    _ => {
                        for _ in 0..n {
                            match it.next() {
                                Some(b) => o.push(b as i64),
                                None => {
                                    o.push(-1);
                                    break;
                                }
                            }
                        }
                        if all && it.next().is_some() {
                            o.push(-2);
                        }
                    }
                }
                o
            }
            let all = n == d.len();
            let o = match &mut objs[i] {
                Obj::Fin(s) => match e.int("via") {
                    _ if ticking() => go(s.encrypt(d.into_iter().inspect(|_| tick())), n, all, how),
                    1 => go(s.encrypt(d.iter().copied().filter(|_| true)), n, all, how),
                    2 => go(s.encrypt(d.iter().cloned()), n, all, how),
                    // a source that goes on and on: nobody may read it to its end
                    3 if !all => {
                        let more = (0..4096u32).map(|x| if x < 4095 { x as u8 } else { panic!("read too far ahead") });
                        go(s.encrypt(d.into_iter().chain(more)), n, all, how)
                    }
                    _ => go(s.encrypt(d), n, all, how),
                },
                Obj::Rc4(k) => {
                    let mut s = StreamCipher::new(&mut *k);
                    let o = go(s.encrypt(d), n, all, how);
                    o
                }
                _ => panic!("harness: not a stream"),
            };
            R::Ok(vec![json::ints(&o)])
        }
        // some of the results only: gaps[k] are passed over before the k-th one looked at
        "picks" => {
            fn go(mut it: impl Iterator<Item = u8>, gaps: &[usize], how: i64) -> Vec<i64> {
                let show = |b: Option<u8>| b.map_or(-1, |b| b as i64);
                let even = gaps.len() > 1 && gaps[1..].iter().all(|g| *g == gaps[1]);
                match how {
                    1 => gaps.iter().map(|g| show(it.by_ref().skip(*g).next())).collect(),
                    2 => gaps.iter().map(|g| { let v: Vec<u8> = it.by_ref().take(*g + 1).collect(); if v.len() > *g { v[*g] as i64 } else { -1 } }).collect(),
                    3 if even => {
                        let mut o = vec![];
                        let mut s = it.by_ref().skip(gaps[0]).step_by(gaps[1] + 1);
                        for _ in gaps {
                            o.push(show(s.next()));
                        }
                        o
                    }
                    4 => gaps.iter().map(|g| { let mut k = 0; it.by_ref().find(|_| { k += 1; k > *g }).map_or(-1, |b| b as i64) }).collect(),
                    5 => gaps.iter().map(|g| { it.by_ref().take(*g).count(); show(it.next()) }).collect(),
                    6 => gaps.iter().map(|g| { let (c, l) = it.by_ref().take(*g + 1).fold((0, 0), |a, b| (a.0 + 1, b)); if c > *g { l as i64 } else { -1 } }).collect(),
                    7 => gaps.iter().map(|g| { if *g > 0 { it.by_ref().take(*g).last(); } show(it.next()) }).collect(),
                    _ => gaps.iter().map(|g| show(it.nth(*g))).collect(),
                }
            }
            let d = data();
            let gaps: Vec<usize> = e.ints("gaps").iter().map(|g| *g as usize).collect();
            let how = e.int("how");
            let o = match &mut objs[i] {
                Obj::Fin(s) => match e.int("via") {
                    1 => go(s.encrypt(d.iter().copied().filter(|_| true)), &gaps, how),
                    _ => go(s.encrypt(d), &gaps, how),
                },
                Obj::Rc4(k) => {
                    let mut s = StreamCipher::new(&mut *k);
                    let o = go(s.encrypt(d), &gaps, how);
                    o
                }
                _ => panic!("harness: not a stream"),
            };
            R::Ok(vec![json::ints(&o)])
        }
        "keypicks" => match &mut objs[i] {
            Obj::Rc4(k) => {
                let mut o = vec![];
                for g in e.ints("gaps") {
                    let g = g as usize;
                    let b = match e.int("how") {
                        1 => k.by_ref().skip(g).next(),
                        2 => {
                            k.by_ref().take(g).for_each(|_| ());
                            k.next()
                        }
                        _ => k.nth(g),
                    };
                    o.push(b.map_or(-1, |b| b as i64));
                }
                R::Ok(vec![json::ints(&o)])
            }
            _ => panic!("harness: not a keystream"),
        },
        "keys" => match &mut objs[i] {
            Obj::Rc4(k) => okb(&k.by_ref().take(e.int("n") as usize).collect::<Vec<u8>>()),
            _ => panic!("harness: not a keystream"),
        },
        "skip" => match &mut objs[i] {
            Obj::Rc4(k) => {
                for _ in 0..e.int("n") {
                    k.next();
                }
                R::Ok(vec![])
            }
            Obj::Fin(s) => {
                s.encrypt(std::iter::repeat_n(0u8, e.int("n") as usize)).for_each(|_| ());
                R::Ok(vec![])
            }
            _ => panic!("harness: not a keystream"),
        },
        "rc4enc" => okb(&cryptography::rc4::new(&e.bytes("key")).encrypt(&data())),
        "rc4dec" => okb(&cryptography::rc4::new(&e.bytes("key")).decrypt(&data())),
        // a long way into the keystream; the state there (st) is computed by the mirror
        "rc4far" => {
            let (key, n) = (e.bytes("key"), far(e));
            let k2 = key.clone();
            let (v, m) = std::thread::scope(|sc| {
                let h = sc.spawn(move || {
                    let mut m = mirror::Rc4::new(&k2);
                    for _ in 0..n {
                        m.next();
                    }
                    m
                });
                let v = catch_unwind(AssertUnwindSafe(|| {
                    let mut k = cryptography::rc4::new(&key);
                    if e.int("how") == 1 {
                        k.by_ref().nth(n as usize - 1);
                    } else {
                        for _ in 0..n {
                            k.next();
                        }
                    }
                    k.take(64).collect::<Vec<u8>>()
                }));
                (v, h.join().unwrap())
            });
            let (s, x, y) = m.state();
            let extra = vec![("st", J::Arr(vec![json::bytes(&s), json::ints(&[x as i64]), json::ints(&[y as i64])]))];
            R::OkX(vec![v.map_or(json::ints(&[-1]), |v| json::bytes(&v))], extra)
        }
        // a long way into a stream: n bytes are encrypted and dropped, the next ones are reported
        "streamfar" => {
            let n = far(e);
            let it = (0u64..).map(|p| (p ^ p >> 8 ^ p >> 16 ^ p >> 24 ^ 3 * (p >> 32)) as u8);
            let mut s = StreamCipher::new(it);
            s.encrypt(std::iter::repeat_n(0u8, n as usize)).for_each(|_| ());
            let d = data();
            okb(&s.encrypt(d.iter().copied()).collect::<Vec<u8>>())
        }
        // ---------------------------------------------------------- digests
        "hash" => okb(&real_hash(e.str("alg"), &data(), e.int("via"))),
        "giant" => {
            let total = e.ints("total");
            let total = (total[0] as u64) << 24 | total[1] as u64;
            let pat = e.int("pat");
            let name = e.str("alg");
            let mut c = mirror::Chain::start(mirror::alg(name).unwrap());
            let bl = c.block_len() as u64;
            let whole = total / bl * bl;
            let tail: Vec<u8> = (whole..total).map(|k| pattern(pat, k)).collect();
            // alloc_zeroed: an all-zero message costs no memory
            let mut m = vec![0u8; total as usize];
            if pat != 0 {
                for (k, b) in m.iter_mut().enumerate() {
                    *b = pattern(pat, k as u64);
                }
            }
            let (d, c) = std::thread::scope(|sc| {
                let mm = &m;
                let h = sc.spawn(move || {
                    for b in mm.chunks_exact(bl as usize) {
                        c.block(b);
                    }
                    c
                });
                let d = catch_unwind(AssertUnwindSafe(|| real_hash(name, mm, 0)));
                (d, h.join().unwrap())
            });
            let wide = bl == 128;
            let mid = J::Arr(
                c.h.iter()
                    .map(|&x| {
                        if wide {
                            json::ints(&[(x >> 48) as i64, (x >> 32 & 0xffff) as i64, (x >> 16 & 0xffff) as i64, (x & 0xffff) as i64])
                        } else {
                            json::ints(&[(x >> 16 & 0xffff) as i64, (x & 0xffff) as i64])
                        }
                    })
                    .collect(),
            );
            let extra = vec![("mid", mid), ("tail", json::bytes(&tail)), ("len", json::bytes(&total.to_le_bytes()))];
            match d {
                Ok(d) => R::OkX(vec![json::bytes(&d)], extra),
                Err(_) => R::OkX(vec![json::ints(&[-1])], extra),
            }
        }
        "from_words" => {
            let w = e.arrs("words");
            push!(match e.int("bits") {
                160 => Obj::H160(<[u32; 5]>::try_from(from_words(&w, u32::from_be_bytes)).unwrap().into()),
                224 => Obj::H224(<[u32; 7]>::try_from(from_words(&w, u32::from_be_bytes)).unwrap().into()),
                256 => Obj::H256(<[u32; 8]>::try_from(from_words(&w, u32::from_be_bytes)).unwrap().into()),
                384 => Obj::H384(<[u64; 6]>::try_from(from_words(&w, u64::from_be_bytes)).unwrap().into()),
                _ => Obj::H512(<[u64; 8]>::try_from(from_words(&w, u64::from_be_bytes)).unwrap().into()),
            })
        }
        "from_hex" => {
            let t = text(e, "text");
            macro_rules! fh {
                ($v:ident, $t:ty) => {
                    match if e.int("via") == 1 { <$t>::from_hex(t.as_bytes()) } else { <$t>::from_hex(&t) } {
                        Ok(h) => push!(Obj::$v(h)),
                        Err(_) => R::Err,
                    }
                };
            }
            match e.int("bits") {
                160 => fh!(H160, sha::Hash160),
                224 => fh!(H224, sha::Hash224),
                256 => fh!(H256, sha::Hash256),
                384 => fh!(H384, sha::Hash384),
                _ => fh!(H512, sha::Hash512),
            }
        }
        "from_hash" => {
            let d = data();
            push!(match e.str("alg") {
                "sha1" => Obj::H160(sha::sha1(&d)),
                "sha224" => Obj::H224(sha::sha224(&d)),
                "sha256" => Obj::H256(sha::sha256(&d)),
                "sha384" => Obj::H384(sha::sha384(&d)),
                _ => Obj::H512(sha::sha512(&d)),
            })
        }
        "to_bytes" => match &objs[i] {
            Obj::H160(h) => okb(&<[u8; 20]>::from(h.clone())),
            Obj::H224(h) => okb(&<[u8; 28]>::from(h.clone())),
            Obj::H256(h) => okb(&<[u8; 32]>::from(h.clone())),
            Obj::H384(h) => okb(&<[u8; 48]>::from(h.clone())),
            Obj::H512(h) => okb(&<[u8; 64]>::from(h.clone())),
            _ => panic!("harness: not a digest"),
        },
        "to_words" => {
            macro_rules! tw {
                ($t:ty, $h:expr) => {
                    R::Ok(<$t>::from($h.clone()).iter().map(|w| json::bytes(&w.to_be_bytes())).collect())
                };
            }
            match &objs[i] {
                Obj::H160(h) => tw!([u32; 5], h),
                Obj::H224(h) => tw!([u32; 7], h),
                Obj::H256(h) => tw!([u32; 8], h),
                Obj::H384(h) => tw!([u64; 6], h),
                Obj::H512(h) => tw!([u64; 8], h),
                _ => panic!("harness: not a digest"),
            }
        }
        "equal" => {
            let q = match (&objs[i], &objs[j]) {
                (Obj::H160(a), Obj::H160(b)) => a == b,
                (Obj::H224(a), Obj::H224(b)) => a == b,
                (Obj::H256(a), Obj::H256(b)) => a == b,
                (Obj::H384(a), Obj::H384(b)) => a == b,
                (Obj::H512(a), Obj::H512(b)) => a == b,
                _ => panic!("harness: digests of different sizes"),
            };
            R::Ok(vec![json::ints(&[q as i64])])
        }
        // ---------------------------------------------------------- numbers
        "be" => create!(BigUint::from_be_bytes(data())),
        "le" => create!(BigUint::from_le_bytes(data())),
        "u128" => create!(BigUint::from(u128::from_be_bytes(data().try_into().unwrap()))),
        "copy" => create!(big!(i)),
        "add" => {
            let o = big!(j);
            mutate!(|b| *b += &o)
        }
        "addb" => {
            let n = amount(e) as u8;
            mutate!(|b| *b += n)
        }
        "sub" => {
            let o = big!(j);
            mutate!(|b| *b -= &o)
        }
        "diff" => create!(big!(i) - &big!(j)),
        "rem" => {
            let o = big!(j);
            mutate!(|b| *b %= &o)
        }
        "shl" => {
            let n = amount(e);
            mutate!(|b| *b <<= n)
        }
        "shr" => {
            let n = amount(e);
            mutate!(|b| *b >>= n)
        }
        "set" => {
            let n = amount(e);
            mutate!(|b| b.update(n, true))
        }
        "clear" => {
            let n = amount(e);
            mutate!(|b| b.update(n, false))
        }
        "bytes" => okb(&big!(i).to_be_bytes()),
        "bits" => {
            let mut n = big!(i).bits_used();
            let mut v = vec![];
            while n > 0 {
                v.push((n & 255) as i64);
                n >>= 8;
            }
            R::Ok(vec![json::ints(&v)])
        }
        "bit" => R::Ok(vec![json::ints(&[big!(i).is_set(amount(e)) as i64])]),
        "as_u128" => match big!(i).as_u128() {
            Ok(x) => okb(&x.to_be_bytes()),
            Err(_) => R::Err,
        },
        "cmp" => {
            let (a, b) = (big!(i), big!(j));
            let c = match a.cmp(&b) {
                Ordering::Less => 0,
                Ordering::Equal => 1,
                Ordering::Greater => 2,
            };
            R::Ok(vec![json::ints(&[c, (a == b) as i64, (a < b) as i64, (a <= b) as i64, (a > b) as i64, (a >= b) as i64])])
        }
        // ---------------------------------------------------------- text
        "pem_parse" => match text(e, "text").parse::<PEM>() {
            Ok(p) => R::Ok(vec![chars(&p.label), json::bytes(&p.data)]),
            Err(_) => R::Err,
        },
        "pem_write" => {
            let p = PEM { label: text(e, "label"), data: data() };
            let t = if e.int("via") == 1 { format!("{p}") } else { p.to_string() };
            R::Ok(vec![chars(&t)])
        }
        "pem_trip" => {
            let p = PEM { label: text(e, "label"), data: data() };
            match p.to_string().parse::<PEM>() {
                Ok(p) => R::Ok(vec![chars(&p.label), json::bytes(&p.data)]),
                Err(_) => R::Err,
            }
        }
        "der" => match Asn1::try_from(data().as_slice()) {
            Ok(a) => {
                let mut o = vec![];
                flat(&a, &mut o);
                R::Ok(vec![json::ints(&o)])
            }
            Err(_) => R::Err,
        },
        // tag, length field, n content bytes (zero but for the two ends)
        "derlong" => {
            let n = far(e) as usize;
            let h = 1 + e.bytes("lenf").len();
            let mut d = vec![0u8; h + n];
            d[0] = e.int("tag") as u8;
            d[1..h].copy_from_slice(&e.bytes("lenf"));
            d[h] = 0x5a;
            d[h + n - 1] = 0xa5;
            match Asn1::try_from(d.as_slice()) {
                Ok(a) => {
                    let (t, b) = match a {
                        Asn1::Integer(b) => (2, b),
                        Asn1::OctetString(b) => (4, b),
                        Asn1::ObjectIdentifier(b) => (6, b),
                        _ => (-1, vec![]),
                    };
                    let v = vec![json::ints(&[t]), json::bytes(&(b.len() as u64).to_be_bytes()), json::ints(&[(b == d[h..]) as i64])];
                    R::Ok(v)
                }
                Err(_) => R::Err,
            }
        }
        // ---------------------------------------------------------- RSA
        "create" => {
            let (p, q, x) = (BigUint::from_be_bytes(e.bytes("p")), BigUint::from_be_bytes(e.bytes("q")), BigUint::from_be_bytes(e.bytes("e")));
            let (a, b) = rsa::create_keys(p, q, x);
            let (c, d) = (a.clone(), b.clone());
            objs.push(Obj::Rsa(RsaEncryption::from(a), KeyVal::Priv(c)));
            objs.push(Obj::Rsa(RsaEncryption::from(b), KeyVal::Pub(d)));
            R::Ok(vec![])
        }
        "priv" | "pub" => {
            let mut pem = PEM { label: text(e, "label"), data: data() };
            if e.int("via") == 1 {
                // through the text form
                pem = match pem.to_string().parse() {
                    Ok(p) => p,
                    Err(_) => return R::Err,
                };
            }
            let k = if e.str("op") == "priv" {
                rsa::PrivateKey::try_from(pem).map(|k| {
                    let c = k.clone();
                    (RsaEncryption::from(k), KeyVal::Priv(c))
                })
            } else {
                rsa::PublicKey::try_from(pem).map(|k| {
                    let c = k.clone();
                    (RsaEncryption::from(k), KeyVal::Pub(c))
                })
            };
            match k {
                Ok((k, c)) => push!(Obj::Rsa(k, c)),
                Err(_) => R::Err,
            }
        }
        "kclone" => match &objs[i] {
            Obj::Rsa(_, KeyVal::Priv(k)) => {
                let (a, c) = (k.clone(), k.clone());
                push!(Obj::Rsa(RsaEncryption::from(a), KeyVal::Priv(c)))
            }
            Obj::Rsa(_, KeyVal::Pub(k)) => {
                let (a, c) = (k.clone(), k.clone());
                push!(Obj::Rsa(RsaEncryption::from(a), KeyVal::Pub(c)))
            }
            _ => panic!("harness: not a key"),
        },
        "keq" => {
            let j = (e.int("other") - 1) as usize;
            match (&objs[i], objs.get(j)) {
                (Obj::Rsa(_, KeyVal::Priv(a)), Some(Obj::Rsa(_, KeyVal::Priv(b)))) => R::Ok(vec![json::ints(&[(a == b) as i64, (a != b) as i64])]),
                (Obj::Rsa(_, KeyVal::Pub(a)), Some(Obj::Rsa(_, KeyVal::Pub(b)))) => R::Ok(vec![json::ints(&[(a == b) as i64, (a != b) as i64])]),
                (Obj::Rsa(..), Some(Obj::Rsa(..))) => R::Err,
                _ => R::NoObj,
            }
        }
        "der_eq" => match (Asn1::try_from(data().as_slice()), Asn1::try_from(e.bytes("data2").as_slice())) {
            (Ok(a), Ok(b)) => R::Ok(vec![json::ints(&[(a == b) as i64, (a != b) as i64, (a.clone() == a && b == b.clone()) as i64])]),
            _ => R::Err,
        },
        "raw" => match &objs[i] {
            Obj::Rsa(k, _) => {
                let m = BigUint::from_be_bytes(data());
                okb(&if e.str("dir") == "enc" { k.encrypt(m) } else { k.decrypt(m) }.to_be_bytes())
            }
            _ => panic!("harness: not a key"),
        },
        "encmsg" => match &objs[i] {
            Obj::Rsa(k, _) => okb(&if e.str("pad") == "oaep" { k.encrypt_message(&data(), RsaPadding) } else { k.encrypt_message(&data(), ToyPad) }),
            _ => panic!("harness: not a key"),
        },
        "decmsg" => match &objs[i] {
            Obj::Rsa(k, _) => okb(&if e.str("pad") == "oaep" { k.decrypt_message(&data(), RsaPadding) } else { k.decrypt_message(&data(), ToyPad) }),
            _ => panic!("harness: not a key"),
        },
        "oaep_enc" => okb(&RsaPadding.encode(&e.bytes("label"), &data(), e.int("n") as usize)),
        "oaep_dec" => match RsaPadding.decode(&e.bytes("label"), &data(), e.int("n") as usize) {
            Ok(m) => okb(&m),
            Err(_) => R::Err,
        },
        // a call that the caller's own code leaves by panicking at the n-th call back
        "dhash" | "dbulk" | "dencmsg" | "ddecmsg" => {
            let J::Obj(f) = e else { panic!("harness: not a call") };
            let inner = J::Obj(f.iter().map(|(k, v)| if k == "op" { (k.clone(), json::s(&e.str("op")[1..])) } else { (k.clone(), v.clone()) }).collect());
            during(e.int("at") as usize, Box::new(|| std::panic::resume_unwind(Box::new("left"))), || call(objs, &inner))
        }
        other => panic!("harness: unknown op {other}"),
    }
}

/// A call may take its data from earlier replies of the session: `refs` lists their positions (from 1),
/// the first parts of these replies are joined, then cut to `cut` bytes, changed by `xor` (position and
/// value pairs) and extended by `pre` and `post`. The data actually used is reported with the reply.
fn resolve(e: &J, past: &[J]) -> Option<J> {
    e.get("refs")?;
    let mut d: Vec<u8> = vec![];
    for r in e.ints("refs") {
        let p = past.get((r - 1) as usize)?;
        d.extend(p.arrs("v").first().cloned().unwrap_or_default());
    }
    if e.get("cut").is_some() {
        d.truncate(e.int("cut") as usize);
    }
    if e.get("skip").is_some() {
        d.drain(..(e.int("skip") as usize).min(d.len()));
    }
    for p in e.ints("xor").chunks(2) {
        let n = d.len();
        if n > 0 {
            d[p[0] as usize % n] ^= p[1] as u8;
        }
    }
    let mut x = e.bytes("pre");
    x.extend(d);
    x.extend(e.bytes("post"));
    let J::Obj(f) = e else { return None };
    let mut f: Vec<(String, J)> = f.iter().filter(|(k, _)| !["refs", "cut", "skip", "xor", "pre", "post", "data"].contains(&k.as_str())).cloned().collect();
    f.push(("data".into(), json::bytes(&x)));
    Some(J::Obj(f))
}

/// reply line of one event, or None if the script cannot go on
pub fn reply(objs: &mut Vec<Obj>, e: &J, past: &[J]) -> Option<J> {
    if let Some(e2) = resolve(e, past) {
        let r = plain_reply(objs, &e2)?;
        let J::Obj(mut f) = r else { return None };
        f.push(("data".into(), e2.get("data").unwrap().clone()));
        return Some(J::Obj(f));
    }
    plain_reply(objs, e)
}
fn plain_reply(objs: &mut Vec<Obj>, e: &J) -> Option<J> {
    let before = objs.len();
    let r = catch_unwind(AssertUnwindSafe(|| call(objs, e)));
    Some(match r {
        Ok(R::Ok(v)) => json::obj(vec![("k", json::s("ok")), ("v", J::Arr(v))]),
        Ok(R::OkX(v, x)) => {
            let mut f = vec![("k", json::s("ok")), ("v", J::Arr(v))];
            f.extend(x);
            json::obj(f)
        }
        Ok(R::Err) => json::obj(vec![("k", json::s("err")), ("v", J::Arr(vec![]))]),
        Ok(R::NoObj) => return None,
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            if msg.starts_with("harness:") {
                eprintln!("HARNESS-ERROR {msg}");
                std::process::exit(3);
            }
            objs.truncate(before);
            json::obj(vec![("k", json::s("panic")), ("v", J::Arr(vec![]))])
        }
    })
}
