//! Session generators: session(property, seed, index, small) is a pure function of its arguments.
//! `small` asks for sessions that the specification can evaluate cheaply.
use crate::json::{self, J};
use crate::keys::KEYS;
use crate::mirror::{self, Nat};

/// numbers and texts that random scripts should prefer (VERIF_FOCUS: decimal numbers separated by commas, a semicolon,
/// texts in hexadecimal separated by commas)
pub struct Focus {
    pub nums: Vec<u64>,
    pub texts: Vec<Vec<u8>>,
}
pub fn focus() -> &'static Focus {
    static F: std::sync::OnceLock<Focus> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let v = std::env::var("VERIF_FOCUS").unwrap_or_default();
        let (a, t) = v.split_once(';').unwrap_or((&v, ""));
        let base: Vec<u64> = a.split(',').filter_map(|x| x.parse().ok()).collect();
        let mut nums = vec![];
        for x in base {
            nums.extend([x, x, x, x.wrapping_sub(1), x.wrapping_add(1), x.wrapping_mul(2), x.wrapping_mul(8), x / 8, x.wrapping_mul(3)]);
        }
        let unhex = |h: &str| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect::<Vec<u8>>();
        Focus { nums, texts: t.split(',').filter(|h| !h.is_empty()).map(unhex).collect() }
    })
}

/// the flag: this script prefers the numbers in focus
pub struct Rng(u64, bool);
impl Rng {
    pub fn new(seed: u64, idx: u64, salt: &str) -> Rng {
        let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ idx.wrapping_mul(0xd1342543de82ef95);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(23);
        }
        let mut r = Rng(h, false);
        r.u();
        r.u();
        r.1 = !focus().nums.is_empty() && r.u() % 3 == 0;
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    pub fn b(&mut self, n: usize) -> usize {
        if self.1 && self.u() % 8 == 0 {
            let f = &focus().nums;
            let x = f[(self.u() % f.len() as u64) as usize];
            if x < n as u64 {
                return x as usize;
            }
        }
        (self.u() % n as u64) as usize
    }
    /// an upper limit for lengths, sometimes raised to reach a number in focus
    pub fn top(&mut self, max: usize) -> usize {
        if self.1 && self.u() % 3 == 0 {
            let f = &focus().nums;
            let x = f[(self.u() % f.len() as u64) as usize];
            if x > max as u64 && x <= 1 << 17 {
                return x as usize + 2;
            }
        }
        max
    }
    /// a text in focus
    pub fn text(&mut self) -> Option<Vec<u8>> {
        let t = &focus().texts;
        if t.is_empty() || self.u() % 4 != 0 {
            return None;
        }
        Some(t[(self.u() % t.len() as u64) as usize].clone())
    }
    /// puts a number or text in focus somewhere into the bytes
    fn sprinkle(&mut self, v: &mut [u8]) {
        let f = &focus().nums;
        let x = f[(self.u() % f.len() as u64) as usize];
        let w = [1, 1, 1, 2, 4, 8][(self.u() % 6) as usize];
        let mut d = if self.u() % 2 == 0 { x.to_be_bytes()[8 - w..].to_vec() } else { x.to_le_bytes()[..w].to_vec() };
        if let Some(t) = self.text() {
            d = t;
        }
        d.truncate(v.len());
        let room = (v.len() - d.len()) as u64;
        let at = match self.u() % 3 {
            0 => 0,
            1 => room,
            _ => self.u() % (room + 1),
        } as usize;
        v[at..at + d.len()].copy_from_slice(&d);
    }
    /// inclusive range
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        if self.1 && self.u() % 8 == 0 {
            let f = &focus().nums;
            let x = f[(self.u() % f.len() as u64) as usize];
            if a as u64 <= x && x <= b as u64 {
                return x as usize;
            }
        }
        a + self.b(b - a + 1)
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.b(n) == 0
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.b(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        if self.1 && self.u() % 4 == 0 {
            return self.pick(&focus().nums) as u8;
        }
        match self.b(4) {
            0 => self.pick(&[0, 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff]),
            _ => self.u() as u8,
        }
    }
    /// bytes with runs of zeros and ones
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.runs(n);
        if self.1 && self.u() % 2 == 0 {
            self.sprinkle(&mut v);
        }
        v
    }
    fn runs(&mut self, n: usize) -> Vec<u8> {
        match self.b(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => vec![self.byte(); n],
            3 => {
                let mut v = vec![0; n];
                if n > 0 {
                    for _ in 0..self.r(1, 3) {
                        let i = self.b(n);
                        v[i] = 1 << self.b(8);
                    }
                }
                v
            }
            4 => {
                let mut v = vec![];
                while v.len() < n {
                    let (x, l) = (self.byte(), self.r(1, 9));
                    let l = if self.one_in(2) { 1 } else { l };
                    v.extend(vec![x; l]);
                }
                v.truncate(n);
                v
            }
            _ => (0..n).map(|_| self.u() as u8).collect(),
        }
    }
    pub fn plain(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u() as u8).collect()
    }
    /// a length up to max, often near a multiple of n
    pub fn near(&mut self, n: usize, max: usize) -> usize {
        let l = match self.b(4) {
            0 => self.b(n + 2),
            1 => self.b(max + 1),
            _ => {
                let k = self.b(max / n + 1) * n;
                (k + self.r(0, 2)).saturating_sub(1)
            }
        };
        l.min(max)
    }
}

pub fn e(op: &str, f: Vec<(&str, J)>) -> J {
    let mut v = vec![("op", json::s(op))];
    v.extend(f);
    json::obj(v)
}
pub fn n(x: usize) -> J {
    J::Int(x as i64)
}
pub fn b(x: &[u8]) -> J {
    json::bytes(x)
}
pub fn s(x: &str) -> J {
    json::s(x)
}
pub fn cps(x: &str) -> J {
    J::Arr(x.chars().map(|c| J::Int(c as i64)).collect())
}
pub fn amt(x: u64) -> J {
    json::ints(&[(x >> 16) as i64, (x & 0xffff) as i64])
}

pub const TOY: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255];
pub const PADS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255];
pub const BITPADS: &[usize] = &[256, 257, 300, 512, 1000];

pub fn session(prop: &str, seed: u64, idx: u64, small: bool) -> Vec<J> {
    let mut r = Rng::new(seed, idx, prop);
    match prop {
        "C01" | "C02" => bulk_trip(&mut r, small),
        "C03" => bulk_bad(&mut r, small),
        "C04" => pads(&mut r, "pkcs"),
        "C05" => pads(&mut r, "bit"),
        "C06" => cipher(&mut r, 0, small),
        "C07" => cipher(&mut r, 1, small),
        "C08" => cipher(&mut r, 2, small),
        "C09" => rc4(&mut r, small),
        "C10" => stream(&mut r, small),
        "C11" => hashes(&mut r, &["md2"], small),
        "C12" => hashes(&mut r, &["md4", "md5"], small),
        "C13" => hashes(&mut r, &["sha1"], small),
        "C14" => hashes(&mut r, &["sha224", "sha256"], small),
        "C15" => hashes(&mut r, &["sha384", "sha512"], small),
        "C16" => digests(&mut r),
        "C17" => numbers(&mut r, small, false),
        "C18" => numbers(&mut r, small, true),
        "C19" => pem_write(&mut r, small),
        "C20" => pem_parse(&mut r, small),
        "C21" => der(&mut r, small, false),
        "C22" => der(&mut r, small, true),
        "C23" => key_files(&mut r, small),
        "C24" => create(&mut r, small),
        "C25" => raw(&mut r, small),
        "C26" => messages(&mut r, small, false),
        "C27" => oaep_enc(&mut r, small),
        "C28" => oaep_dec(&mut r, small),
        "C29" => messages(&mut r, small, true),
        "C30" => permutations(&mut r, small),
        "C31" => refusals(&mut r),
        "C33" => values(&mut r, small),
        _ => panic!("harness: unknown property"),
    }
}

// ------------------------------------------------------------------ block ciphers
fn rc2_key(r: &mut Rng) -> (Vec<u8>, usize) {
    let l = match r.b(4) {
        0 => r.pick(&[1, 2, 7, 8, 9, 16, 33, 63, 64, 65, 127, 128]),
        _ => r.r(1, 128),
    };
    let bits = match r.b(4) {
        0 => r.pick(&[1, 2, 7, 8, 9, 40, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1016, 1017, 1023, 1024]),
        1 => 8 * l,
        _ => r.r(1, 1024),
    };
    (r.bytes(l), bits)
}
fn new_cipher(r: &mut Rng, kind: usize) -> (J, usize) {
    match kind {
        0 => {
            let l = r.pick(&[16, 24, 32]);
            (e("aes", vec![("key", b(&r.bytes(l))), ("words", n(r.b(2)))]), 16)
        }
        1 => {
            let (k, bits) = rc2_key(r);
            (e("rc2", vec![("key", b(&k)), ("bits", n(bits))]), 8)
        }
        2 => {
            let l = if r.one_in(3) { r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 252, 253, 254, 255]) } else { r.b(256) };
            let rounds = if r.one_in(3) { r.pick(&[0, 1, 2, 11, 12, 13, 16, 20, 127, 128, 129, 254, 255]) } else { r.b(256) };
            (e("rc5", vec![("key", b(&r.bytes(l))), ("rounds", n(rounds))]), 8)
        }
        _ => {
            let k = if r.one_in(3) { r.pick(TOY) } else { r.pick(&TOY[..17]) };
            (e("toy", vec![("key", b(&[r.byte()])), ("n", n(k))]), k)
        }
    }
}
pub fn blk(o: usize, dir: &str, d: &[u8]) -> J {
    e("block", vec![("obj", n(o)), ("dir", s(dir)), ("data", b(d))])
}
fn cipher(r: &mut Rng, kind: usize, small: bool) -> Vec<J> {
    let (c, bl) = new_cipher(r, kind);
    let mut v = vec![c];
    for _ in 0..if small { 2 } else { 6 } {
        let d = r.pick(&["enc", "dec"]);
        v.push(blk(1, d, &r.bytes(bl)));
    }
    v
}
fn permutations(r: &mut Rng, small: bool) -> Vec<J> {
    let mut v = vec![];
    let mut sizes = vec![];
    for _ in 0..r.r(1, 4) {
        let k = r.b(3);
        // sometimes the same key twice, or a key that shares a prefix
        if !v.is_empty() && r.one_in(3) {
            let j = r.b(v.len());
            v.push(J::clone(&v[j]));
            sizes.push(sizes[j]);
        } else {
            let (c, bl) = new_cipher(r, k);
            v.push(c);
            sizes.push(bl);
        }
    }
    let mut seen: Vec<(usize, Vec<u8>)> = vec![];
    for _ in 0..r.r(2, if small { 8 } else { 20 }) {
        let o = r.b(sizes.len());
        if r.one_in(8) {
            let w = if r.one_in(20) && !small { 70000 } else { r.pick(&[1, 2, 3, 16, 255, 256, 257, 1000]) };
            v.push(e("warm", vec![("obj", n(o + 1)), ("n", n(w))]));
            continue;
        }
        let old: Vec<&(usize, Vec<u8>)> = seen.iter().filter(|x| x.0 == sizes[o]).collect();
        let d = if !old.is_empty() && r.one_in(3) {
            let mut d = old[r.b(old.len())].1.clone();
            if r.one_in(2) {
                let k = r.b(d.len());
                d[k] ^= 1 << r.b(8);
            }
            d
        } else {
            r.bytes(sizes[o])
        };
        seen.push((sizes[o], d.clone()));
        let dir = r.pick(&["enc", "dec"]);
        let back = if dir == "enc" { "dec" } else { "enc" };
        v.push(blk(o + 1, dir, &d));
        let at = v.len();
        if r.one_in(2) {
            v.push(e("block", vec![("obj", n(o + 1)), ("dir", s(back)), ("refs", J::Arr(vec![n(at)]))]));
        }
    }
    v
}
fn mode(r: &mut Rng, bl: usize) -> (&'static str, Vec<u8>) {
    match r.b(3) {
        0 => ("ecb", vec![]),
        1 => ("cbc", r.bytes(bl)),
        _ => ("ctr", vec![r.byte()]),
    }
}
fn bulk_trip(r: &mut Rng, small: bool) -> Vec<J> {
    let kind = if r.one_in(3) { r.b(3) } else { 3 };
    let (c, bl) = new_cipher(r, kind);
    let max = if small { (4 * bl).max(20).min(if kind == 3 { 600 } else { 80 }) } else if r.one_in(400) { 70000 } else { r.top(5 * bl + 300) };
    let l = r.near(bl, max);
    let mut m = r.bytes(l);
    // endings that look like padding
    if r.one_in(2) && !m.is_empty() {
        let p = r.r(0, bl.min(255));
        let k = r.r(1, p.max(1)).min(m.len());
        let at = m.len() - k;
        m[at..].fill(p as u8);
    }
    let (md, iv) = mode(r, bl);
    let f = |dir: &str| vec![("obj", n(1)), ("dir", s(dir)), ("mode", s(md)), ("iv", b(&iv))];
    let mut enc = f("enc");
    enc.push(("data", b(&m)));
    let mut dec = f("dec");
    dec.push(("refs", J::Arr(vec![n(2)])));
    vec![c, e("bulk", enc), e("bulk", dec)]
}
fn bulk_bad(r: &mut Rng, small: bool) -> Vec<J> {
    let kind = if r.one_in(3) { r.b(3) } else { 3 };
    let (c, bl) = new_cipher(r, kind);
    let (md, iv) = mode(r, bl);
    let mut f = vec![("obj", n(1)), ("dir", s("dec")), ("mode", s(md)), ("iv", b(&iv))];
    match r.b(4) {
        // any bytes
        0 => {
            let l = r.near(bl, if small { 3 * bl } else { 6 * bl + 40 });
            f.push(("data", b(&r.bytes(l))));
            vec![c, e("bulk", f)]
        }
        // a damaged encryption
        1 => {
            let l = r.near(bl, 3 * bl);
            let mut g = vec![("obj", n(1)), ("dir", s("enc")), ("mode", s(md)), ("iv", b(&iv))];
            g.push(("data", b(&r.bytes(l))));
            let ct = (l / bl + 1) * bl;
            f.push(("refs", J::Arr(vec![n(2)])));
            match r.b(4) {
                0 => f.push(("cut", n(r.b(ct + 1)))),
                1 => f.push(("skip", n(r.b(ct + 1)))),
                2 => {
                    let k = r.b(5);
                    f.push(("post", b(&r.bytes(k))));
                }
                _ => f.push(("xor", json::ints(&[r.b(ct) as i64, 1 << r.b(8)]))),
            }
            vec![c, e("bulk", g), e("bulk", f)]
        }
        // a chosen final plaintext block
        _ => {
            let mut p = r.bytes(bl);
            let pad = match r.b(6) {
                0 => 0,
                1 => bl,
                2 => bl + 1,
                3 => r.b(256),
                _ => r.r(1, bl),
            } & 255;
            let k = pad.min(bl).max(1);
            p[bl - k..].fill(pad as u8);
            if r.one_in(2) && k > 1 {
                let at = bl - k + if r.one_in(3) { 0 } else { r.b(k - 1) };
                p[at] ^= r.pick(&[1, 2, 128, 255]);
            }
            // undo the mode for the first (or second) block
            let first = r.bytes(bl);
            let two = md != "ecb" && r.one_in(2) || md == "ecb" && r.one_in(2);
            let x: Vec<u8> = match md {
                "cbc" => (0..bl).map(|i| p[i] ^ if two { first[i] } else { iv[i] }).collect(),
                "ctr" => (0..bl).map(|i| p[i] ^ iv[0].wrapping_add(two as u8).wrapping_add((i + 1) as u8)).collect(),
                _ => p,
            };
            f.push(("refs", J::Arr(vec![n(2)])));
            if two {
                f.push(("pre", b(&first)));
            }
            vec![c, blk(1, "enc", &x), e("bulk", f)]
        }
    }
}
fn pads(r: &mut Rng, kind: &str) -> Vec<J> {
    let bl = if kind == "bit" && r.one_in(8) { r.pick(BITPADS) } else { r.pick(PADS) };
    let mut v = vec![];
    for _ in 0..4 {
        if r.one_in(2) {
            let l = match r.b(6) {
                0 => bl - 1,
                1 => bl,
                2 => bl + r.r(1, 3),
                3 => 0,
                _ => r.b(bl + 2),
            };
            let mut d = r.bytes(l);
            if r.one_in(3) && l > 0 {
                // data that ends like padding
                let k = r.r(1, l);
                let x = if kind == "pkcs" { r.r(1, bl.min(255)) as u8 } else { r.pick(&[0, 0x80]) };
                d[l - k..].fill(x);
            }
            v.push(e("pad", vec![("pad", s(kind)), ("n", n(bl)), ("data", b(&d))]));
            if l < bl {
                let at = v.len();
                v.push(e("unpad", vec![("pad", s(kind)), ("n", n(bl)), ("refs", J::Arr(vec![n(at)]))]));
            }
        } else {
            let mut d = r.bytes(bl);
            if kind == "pkcs" {
                let p = match r.b(6) {
                    0 => 0,
                    1 => bl + 1,
                    2 => bl,
                    3 => r.b(256),
                    _ => r.r(1, bl),
                } & 255;
                let k = p.min(bl).max(1);
                d[bl - k..].fill(p as u8);
                if r.one_in(2) {
                    let at = if r.one_in(2) { bl - k } else { r.r(bl - k, bl - 1) };
                    d[at] ^= r.pick(&[0, 1, 128, 255]);
                }
            } else {
                let at = r.b(bl);
                d[at] = r.pick(&[0x80, 0x80, 0x81, 0x40, 0, 1]);
                d[at + 1..].fill(0);
                if r.one_in(4) && at + 1 < bl {
                    let j = r.r(at + 1, bl - 1);
                    d[j] = r.pick(&[1, 0x80, 0x7f]);
                }
            }
            v.push(e("unpad", vec![("pad", s(kind)), ("n", n(bl)), ("data", b(&d))]));
        }
    }
    v
}

// ------------------------------------------------------------------ streams
fn rc4_key(r: &mut Rng) -> Vec<u8> {
    let l = match r.b(4) {
        0 => r.pick(&[1, 2, 5, 16, 127, 128, 129, 254, 255, 256, 257, 258, 300, 512, 1000]),
        1 => r.r(1, 300),
        _ => r.r(1, 32),
    };
    r.bytes(l)
}
fn rc4(r: &mut Rng, small: bool) -> Vec<J> {
    let k = rc4_key(r);
    let mut v = vec![e("rc4", vec![("key", b(&k))])];
    for _ in 0..r.r(1, 4) {
        match r.b(4) {
            3 => {
                let m = if small { 20 } else { r.top(300) };
                let g: Vec<i64> = (0..r.b(6)).map(|_| r.b(m) as i64).collect();
                v.push(e("keypicks", vec![("obj", n(1)), ("gaps", json::ints(&g)), ("how", n(r.b(3)))]));
            }
            0 => {
                let m = if small { 600 } else if r.one_in(40) { 140000 } else { r.top(3000) };
                v.push(e("skip", vec![("obj", n(1)), ("n", n(r.b(m)))]));
            }
            1 => {
                let m = if small { 40 } else { r.top(700) };
                let l = r.b(m);
                v.push(e("piece", vec![("obj", n(1)), ("data", b(&r.bytes(l))), ("n", n(l)), ("how", n(r.b(4)))]));
            }
            _ => {
                let m = if small { 80 } else { r.top(700) };
                v.push(e("keys", vec![("obj", n(1)), ("n", n(r.b(m)))]));
            }
        }
    }
    if r.one_in(2) {
        let m = if small { 60 } else { r.top(1500) };
        let l = r.b(m);
        v.push(e(r.pick(&["rc4enc", "rc4dec"]), vec![("key", b(&k)), ("data", b(&r.bytes(l)))]));
    }
    v
}
/// gaps between the results looked at, usually within l results
pub fn gaps(r: &mut Rng, l: usize) -> Vec<i64> {
    let mut g = vec![];
    let mut at = 0;
    let even = r.one_in(3);
    let step = r.b(l / 3 + 2);
    for i in 0..r.r(1, 5) {
        let x = if even && i > 0 { step } else { r.b((l / 2 + 2).min(l.saturating_sub(at) + 2)) };
        if at + x + 1 > l && !r.one_in(3) {
            break;
        }
        g.push(x as i64);
        at += x + 1;
        if at > l {
            break;
        }
    }
    g
}
fn stream(r: &mut Rng, small: bool) -> Vec<J> {
    let mut v = vec![];
    let objs = r.r(1, 2);
    // bytes left in each keystream, None if endless
    let mut left: Vec<Option<usize>> = vec![];
    for _ in 0..objs {
        match r.b(4) {
            0 => {
                v.push(e("pat", vec![("key", b(&[r.byte()]))]));
                left.push(None);
            }
            1 => {
                let l = r.r(1, 20);
                v.push(e("rc4", vec![("key", b(&r.bytes(l)))]));
                left.push(None);
            }
            _ => {
                let m = if small { 60 } else { r.top(600) };
                let l = r.b(m);
                v.push(e("fin", vec![("key", b(&r.plain(l))), ("via", n(r.b(3)))]));
                left.push(Some(l));
            }
        }
    }
    for _ in 0..r.r(1, 9) {
        let o = r.b(objs);
        if left[o].is_none() && r.one_in(5) {
            let pat = matches!(v[o].str("op"), "pat");
            let m = if pat { r.pick(&[256, 65536, 300000]) } else if small { 300 } else { 70000 };
            v.push(e("skip", vec![("obj", n(o + 1)), ("n", n(r.b(m)))]));
            continue;
        }
        let l = match r.b(4) {
            0 => r.b(3),
            1 => left[o].unwrap_or(16),
            _ => {
                let m = if small { 24 } else { r.top(200) };
                r.b(m)
            }
        };
        let mut l = l;
        if let Some(x) = left[o] {
            if l > x && !r.one_in(6) {
                l = x;
            }
        }
        if r.one_in(4) {
            let g = gaps(r, l);
            let used = (g.iter().map(|g| g + 1).sum::<i64>() as usize).min(l);
            v.push(e("picks", vec![("obj", n(o + 1)), ("data", b(&r.bytes(l))), ("gaps", json::ints(&g)), ("how", n(r.b(8))), ("via", n(r.b(2)))]));
            if let Some(x) = left[o] {
                if used > x {
                    break;
                }
                left[o] = Some(x - used);
            }
            continue;
        }
        let take = if r.one_in(3) { r.b(l + 1) } else { l };
        v.push(e("piece", vec![("obj", n(o + 1)), ("data", b(&r.bytes(l))), ("n", n(take)), ("how", n(r.b(4))), ("via", n(r.b(4)))]));
        if let Some(x) = left[o] {
            if take > x {
                break;
            }
            left[o] = Some(x - take);
        }
    }
    v
}

// ------------------------------------------------------------------ digests
fn hashes(r: &mut Rng, algs: &[&str], small: bool) -> Vec<J> {
    let a = r.pick(algs);
    let bl = if a == "md2" { 16 } else if a == "sha384" || a == "sha512" { 128 } else { 64 };
    let max = if small { 3 * bl } else if r.one_in(2000) { 1 << 20 } else if r.one_in(50) { 20000 } else { r.top(6 * bl) };
    let mut l = r.near(bl, max);
    if r.one_in(3) {
        l = (l / bl * bl + bl - bl / 8 - 1 + r.b(3)).min(max);
    }
    vec![e("hash", vec![("alg", s(a)), ("data", b(&r.bytes(l))), ("via", n(r.b(7)))])]
}
fn hex_text(r: &mut Rng, d: &[u8]) -> String {
    let up = r.b(3);
    d.iter().flat_map(|x| [x >> 4, x & 15]).map(|x| {
        let c = std::char::from_digit(x as u32, 16).unwrap();
        if up == 1 || up == 2 && r.one_in(2) { c.to_ascii_uppercase() } else { c }
    }).collect()
}
fn digests(r: &mut Rng) -> Vec<J> {
    let (bits, alg) = r.pick(&[(160usize, "sha1"), (224, "sha224"), (256, "sha256"), (384, "sha384"), (512, "sha512")]);
    let w = if bits > 256 { 8 } else { 4 };
    let mut v = vec![];
    let mut objs = 0;
    let base = r.bytes(bits / 8);
    for _ in 0..r.r(2, 7) {
        let mut d = if r.one_in(2) { base.clone() } else { r.bytes(bits / 8) };
        if r.one_in(3) {
            let k = r.b(d.len());
            d[k] ^= 1 << r.b(8);
        }
        match r.b(5) {
            0 => v.push(e("from_words", vec![("bits", n(bits)), ("words", J::Arr(d.chunks(w).map(b).collect()))])),
            1 => {
                let l = r.b(30);
                v.push(e("from_hash", vec![("alg", s(alg)), ("data", b(&r.bytes(l)))]));
            }
            2 => {
                let mut t: Vec<char> = hex_text(r, &d).chars().collect();
                if let Some(x) = r.text() {
                    let x: Vec<char> = String::from_utf8_lossy(&x).chars().collect();
                    let at = r.pick(&[0, t.len()]);
                    t.splice(at..at, x);
                }
                match r.b(5) {
                    0 => {
                        t.pop();
                    }
                    1 => {
                        t.truncate(t.len() - 2);
                    }
                    2 => t.extend(hex_text(r, &[7]).chars().take(r.r(1, 2)).collect::<Vec<_>>()),
                    3 => {
                        let k = r.b(t.len());
                        t[k] = r.pick(&['g', 'G', ' ', '/', ':', '@', '`', '\n', '-', '+', 'é', 'x', '\0', '０']);
                    }
                    _ => t.clear(),
                }
                v.push(e("from_hex", vec![("bits", n(bits)), ("text", cps(&t.iter().collect::<String>())), ("via", n(r.b(2)))]));
                continue;
            }
            _ => v.push(e("from_hex", vec![("bits", n(bits)), ("text", cps(&hex_text(r, &d))), ("via", n(r.b(2)))])),
        }
        objs += 1;
        v.push(e(r.pick(&["to_bytes", "to_words"]), vec![("obj", n(objs)), ("bits", n(bits))]));
        if objs > 1 {
            v.push(e("equal", vec![("obj", n(r.r(1, objs))), ("other", n(r.r(1, objs)))]));
        }
    }
    v
}

// ------------------------------------------------------------------ numbers
fn numbers(r: &mut Rng, small: bool, queries: bool) -> Vec<J> {
    let max = if small { r.pick(&[3, 8, 18, 40]) } else { r.pick(&[2, 4, 9, 17, 40, 140]) };
    let max = if small { max } else if r.one_in(300) { r.pick(&[1000, 5000, 9000, 20000, 70000]) } else { r.top(max).min(600) };
    let mut v: Vec<J> = vec![];
    let mut st: Vec<Nat> = vec![];
    let new = |r: &mut Rng, v: &mut Vec<J>, st: &mut Vec<Nat>| {
        let l = r.b(max + 1);
        let mut d = r.bytes(l);
        match r.b(4) {
            0 => {
                let mut le = d.clone();
                le.reverse();
                v.push(e("le", vec![("data", b(&le))]));
            }
            1 => {
                d.truncate(16);
                while d.len() < 16 {
                    d.insert(0, 0);
                }
                v.push(e("u128", vec![("data", b(&d))]));
            }
            _ => v.push(e("be", vec![("data", b(&d))])),
        }
        st.push(Nat::from_be(&d));
    };
    new(r, &mut v, &mut st);
    new(r, &mut v, &mut st);
    for _ in 0..r.r(2, if small { 10 } else { 16 }) {
        let (o, p) = (r.b(st.len()), r.b(st.len()));
        let (on, pn) = (("obj", n(o + 1)), ("other", n(p + 1)));
        let bits = st[o].bits();
        match r.b(if queries { 20 } else { 12 }) {
            0 if st.len() < 5 => new(r, &mut v, &mut st),
            1 => {
                v.push(e("add", vec![on, pn]));
                st[o] = st[o].add(&st[p].clone());
            }
            2 => {
                let x = r.byte();
                v.push(e("addb", vec![on, ("n", amt(x as u64))]));
                st[o] = st[o].add(&Nat::from_be(&[x]));
            }
            3 | 4 => {
                // subtract the smaller from the larger
                let (a, c) = if st[o].cmp(&st[p]) == std::cmp::Ordering::Less { (p, o) } else { (o, p) };
                let f = vec![("obj", n(a + 1)), ("other", n(c + 1))];
                let x = st[a].sub(&st[c]);
                if r.one_in(2) || st.len() >= 5 {
                    v.push(e("sub", f));
                    st[a] = x;
                } else {
                    v.push(e("diff", f));
                    st.push(x);
                }
            }
            5 | 6 => {
                // the code takes time in proportion to the product
                let steps = bits.saturating_sub(st[p].bits()) + 1;
                if !st[p].0.is_empty() && steps * bits < 20_000_000 {
                    v.push(e("rem", vec![on, pn]));
                    st[o] = st[o].rem(&st[p].clone());
                }
            }
            7 => {
                let k = r.pick(&[1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 64]) as u64;
                let k = if r.one_in(8) { 0 } else { k };
                if bits + k < 2000 {
                    v.push(e("shl", vec![on, ("n", amt(k))]));
                    st[o] = st[o].shl(k);
                }
            }
            8 => {
                let k = match r.b(5) {
                    0 => bits + r.b(20) as u64,
                    1 => bits.saturating_sub(1),
                    2 => r.pick(&[0, 1, 7, 8, 9, 16, 24, 64]),
                    3 => r.pick(&[65536u64, 0xffffffff, 0x80000000, 0x7fffffff, 0xfffffff8]),
                    _ => r.b(bits as usize + 1) as u64,
                };
                v.push(e("shr", vec![on, ("n", amt(k))]));
                st[o] = st[o].shr(k);
            }
            9 => {
                v.push(e("copy", vec![on]));
                let x = st[o].clone();
                st.push(x);
            }
            // make numbers close to each other
            10 | 11 => {
                if bits > 0 {
                    let nb = bits.div_ceil(8) * 8;
                    let k = if r.one_in(3) { nb - 1 - r.b(8) as u64 } else { r.b(nb as usize) as u64 };
                    let set = r.one_in(2);
                    v.push(e(if set { "set" } else { "clear" }, vec![on, ("n", amt(k))]));
                    st[o] = st[o].set_bit(k, set);
                }
            }
            12 => v.push(e("bytes", vec![on])),
            13 => v.push(e("bits", vec![on])),
            14 => {
                let k = match r.b(4) {
                    0 => bits + r.b(20) as u64,
                    1 => bits.saturating_sub(1),
                    2 => r.pick(&[0xffffffff, 0x80000000, 65536]),
                    _ => r.b(bits as usize + 1) as u64,
                };
                v.push(e("bit", vec![on, ("n", amt(k))]));
            }
            15 => v.push(e("as_u128", vec![on])),
            _ => v.push(e("cmp", vec![on, pn])),
        }
        if st.iter().any(|x| x.bits() > 4000) {
            break;
        }
    }
    if queries {
        for o in 0..st.len() {
            v.push(e("bits", vec![("obj", n(o + 1))]));
            v.push(e("as_u128", vec![("obj", n(o + 1))]));
            v.push(e("cmp", vec![("obj", n(o + 1)), ("other", n(r.b(st.len()) + 1))]));
        }
    }
    v
}

// ------------------------------------------------------------------ PEM
pub const WS: &[char] = &[' ', ' ', '\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2003}', '\u{2028}', '\u{3000}', '\u{1680}'];
fn label(r: &mut Rng) -> String {
    if let Some(t) = r.text() {
        return String::from_utf8_lossy(&t).replace(['\n', '\r'], "");
    }
    match r.b(6) {
        0 => String::new(),
        1 => r.pick(&["PRIVATE KEY", "RSA PRIVATE KEY", "PUBLIC KEY", "X", "CERTIFICATE"]).into(),
        2 => r.pick(&["-", "-----", "A-----", "-----BEGIN ", "-----END X-----", "A-B", " A", "A ", "  ", "=", "a\tb", "é", "\u{3000}x", "日本"]).into(),
        _ => {
            let m = if r.one_in(20) { 300 } else { r.top(12) };
            let l = r.b(m);
            (0..l).map(|_| r.pick(&['A', 'B', 'Z', ' ', '-', 'a', '0', '/', 'é', '\t'])).collect()
        }
    }
}
fn data_len(r: &mut Rng, small: bool) -> usize {
    match r.b(4) {
        0 => r.b(5),
        1 => r.pick(&[45, 46, 47, 48, 49, 50, 94, 95, 96, 97, 98, 143, 144, 145]),
        _ => {
            let m = if small { 120 } else if r.one_in(100) { 30000 } else { r.top(800) };
            r.b(m)
        }
    }
}
fn pem_write(r: &mut Rng, small: bool) -> Vec<J> {
    let l = data_len(r, small);
    let f = vec![("label", cps(&label(r))), ("data", b(&r.bytes(l))), ("via", n(r.b(2)))];
    vec![e("pem_write", f.clone()), e("pem_trip", f)]
}
fn pem_parse(r: &mut Rng, small: bool) -> Vec<J> {
    let lb = label(r);
    let l = data_len(r, small);
    let mut body: Vec<char> = mirror::b64_encode(&r.bytes(l)).chars().collect();
    match r.b(8) {
        0 => {
            body.pop();
        }
        1 if !body.is_empty() => {
            let k = if r.one_in(2) { body.len() - 1 - r.b(4.min(body.len())) } else { r.b(body.len()) };
            body[k] = r.pick(&['=', '-', '_', '+', '/', 'A', 'B', ' ', '!', 'é', '\0', '.', 'z', '9', ',']);
        }
        2 => body.extend(r.pick(&["=", "==", "===", "====", "A", "AA", "AA==", "AAA=", "A===", "=A"]).chars()),
        3 if body.len() > 2 => {
            let k = r.b(body.len());
            body.insert(k, r.pick(&['=', ' ', '-', 'A', '\t']));
        }
        4 if body.len() >= 4 => {
            body.truncate(body.len() - r.r(1, 4));
            if r.one_in(2) {
                while body.len() % 4 != 0 {
                    body.push('=');
                }
            }
        }
        _ => {}
    }
    let mut lines: Vec<String> = vec![];
    let other = |r: &mut Rng| -> String {
        if let Some(t) = r.text() {
            return String::from_utf8_lossy(&t).replace(['\n', '\r'], "");
        }
        r.pick(&[
            "", "text", "AAAA", "# comment", "-----", "-----BEGIN", "-----END", "----BEGIN A-----", "BEGIN A", "-----begin A-----", "--", "x-----BEGIN A-----",
            "Proc-Type: 4,ENCRYPTED", "-----BEGINX A-----", "=",
        ])
        .into()
    };
    let many = |r: &mut Rng| {
        let m = if small { 3 } else if r.one_in(50) { 100 } else { r.top(3) };
        r.b(m)
    };
    for _ in 0..many(r) {
        lines.push(other(r));
    }
    lines.push(format!("-----BEGIN {lb}-----"));
    let width = r.pick(&[1, 2, 3, 4, 5, 16, 63, 64, 64, 65, 76, 100000]);
    for c in body.chunks(if small { width.max(8) } else { width }) {
        lines.push(c.iter().collect());
        if r.one_in(30) {
            lines.push(String::new());
        }
    }
    lines.push(format!("-----END {lb}-----"));
    for _ in 0..many(r) {
        lines.push(other(r));
    }
    // structural damage
    for _ in 0..r.b(3) {
        let k = r.b(lines.len());
        match r.b(9) {
            0 => {
                lines.remove(k);
            }
            1 => {
                let l = lines[k].clone();
                lines.insert(r.b(lines.len() + 1), l);
            }
            2 => {
                let j = r.b(lines.len());
                lines.swap(k, j);
            }
            3 => lines.insert(k, format!("-----END {}-----", label(r))),
            4 => lines.insert(k, format!("-----BEGIN {}-----", label(r))),
            5 => lines[k] = lines[k].trim_end_matches('-').to_string(),
            6 => lines[k].push('-'),
            7 => {
                let mut c: Vec<char> = lines[k].chars().collect();
                if !c.is_empty() {
                    let j = r.b(c.len());
                    c[j] = r.pick(&['-', ' ', 'A', 'b', '\t']);
                }
                lines[k] = c.into_iter().collect();
            }
            _ => lines.insert(k, other(r)),
        }
        if lines.is_empty() {
            lines.push(String::new());
        }
    }
    for _ in 0..r.b(2) {
        if let Some(x) = r.text() {
            // a text in focus, anywhere
            let k = r.b(lines.len());
            let x = String::from_utf8_lossy(&x).replace(['\n', '\r'], "");
            let mut c: Vec<char> = lines[k].chars().collect();
            let at = match r.b(4) {
                0 => 0,
                1 => c.len(),
                _ => r.b(c.len() + 1),
            };
            c.splice(at..at, x.chars());
            lines[k] = c.into_iter().collect();
        }
    }
    let mut t = String::new();
    let crlf = r.one_in(4);
    let ws = r.b(4);
    let last = lines.len() - 1;
    for (i, l) in lines.iter().enumerate() {
        if ws == 0 && r.one_in(2) || ws == 1 && r.one_in(8) {
            let m = if small { 3 } else { r.top(3) };
            for _ in 0..r.b(m) + 1 {
                t.push(r.pick(WS));
            }
        }
        t += l;
        if ws == 0 && r.one_in(2) || ws == 1 && r.one_in(8) {
            for _ in 0..r.r(1, 2) {
                t.push(r.pick(WS));
            }
        }
        if i < last || r.one_in(2) {
            t += if crlf { "\r\n" } else { "\n" };
        }
    }
    vec![e("pem_parse", vec![("text", cps(&t))])]
}

// ------------------------------------------------------------------ DER
#[derive(Clone)]
pub enum T {
    P(u8, Vec<u8>),
    S(Vec<T>),
}
/// how length fields are written: 0 minimal, 1 sometimes longer
pub fn tlv(r: &mut Rng, style: usize, tag: u8, c: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    let l = c.len();
    let mut lb: Vec<u8> = (l as u64).to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
    if style == 1 && r.one_in(2) {
        let total = r.r(lb.len().max(1), 16);
        while lb.len() < total {
            lb.insert(0, 0);
        }
        o.push(0x80 | lb.len() as u8);
        o.extend(lb);
    } else if style == 2 && r.one_in(4) {
        let total = r.r(16, 126);
        while lb.len() < total {
            lb.insert(0, 0);
        }
        o.push(0x80 | lb.len() as u8);
        o.extend(lb);
    } else if l < 128 {
        o.push(l as u8);
    } else {
        o.push(0x80 | lb.len() as u8);
        o.extend(lb);
    }
    o.extend(c);
    o
}
pub fn enc(r: &mut Rng, style: usize, t: &T) -> Vec<u8> {
    match t {
        T::P(tag, c) => tlv(r, style, *tag, c),
        T::S(v) => {
            let c: Vec<u8> = v.iter().flat_map(|x| enc(r, style, x)).collect();
            tlv(r, style, 0x30, &c)
        }
    }
}
fn tree(r: &mut Rng, depth: usize, small: bool) -> T {
    if depth > 0 && r.one_in(2) {
        let k = if r.one_in(20) && !small {
            let m = r.top(60);
            r.b(m)
        } else {
            r.b(5)
        };
        let depth = if k > 60 { 1 } else { depth };
        return T::S((0..k).map(|_| tree(r, depth - 1, small)).collect());
    }
    let tag = r.pick(&[2u8, 4, 6, 3, 5]);
    if tag == 5 {
        return T::P(5, vec![]);
    }
    let l = match r.b(8) {
        0 => r.pick(&[127, 128, 129]),
        1 => r.pick(&[255, 256, 257]),
        2 if !small && r.one_in(20) => r.pick(&[65535, 65536, 65537]),
        3 if !small => {
            let m = r.top(9);
            r.b(m)
        }
        _ => r.b(9),
    };
    let mut c = r.bytes(l);
    if tag == 3 {
        c.insert(0, if r.one_in(2) { 0 } else { r.byte() });
    }
    T::P(tag, c)
}
fn der(r: &mut Rng, small: bool, damage: bool) -> Vec<J> {
    let d = match r.b(12) {
        0 => {
            // nesting
            let depth = if damage { r.pick(&[1, 10, 60, 63, 64, 65, 100, 127, 128, 129, 130, 200, 1000]) } else { r.r(1, 62) };
            let mut x = match r.b(3) {
                0 => vec![],
                1 => vec![5, 0],
                _ => vec![2, 1, 7],
            };
            let style = r.b(2);
            for _ in 0..depth {
                x = tlv(r, style, 0x30, &x);
            }
            x
        }
        _ => {
            let dp = r.b(5);
            let t = tree(r, dp, small);
            let style = if damage { r.b(3) } else { r.b(2) };
            enc(r, style, &t)
        }
    };
    let mut d = d;
    if damage {
        for _ in 0..r.b(4) {
            if d.is_empty() {
                break;
            }
            let k = if r.one_in(2) { r.b(d.len().min(8)) } else { r.b(d.len()) };
            match r.b(9) {
                0 => d.truncate(k),
                1 => {
                    let l = r.b(3) + 1;
                    d.extend(r.bytes(l));
                }
                2 => d[k] = r.pick(&[2, 3, 4, 5, 6, 0x30, 0x31, 0x10, 0x22, 0x24, 0x23, 0x25, 1, 0, 0x0c, 0x13, 0x80, 0xa0, 0xff]),
                3 => d[k] = r.pick(&[0x80, 0x81, 0x82, 0x83, 0x84, 0x87, 0x88, 0x89, 0x8f, 0x90, 0x91, 0xfe, 0xff, 0x7f, 0]),
                4 => d[k] = d[k].wrapping_add(1),
                5 => d[k] = d[k].wrapping_sub(1),
                6 => {
                    d.remove(k);
                }
                7 => {
                    let x = r.byte();
                    d.insert(k, x);
                }
                _ => d[k] = r.byte(),
            }
        }
        if r.one_in(10) {
            // a long length field with chosen value
            let nb = r.r(0, 127);
            let mut x = vec![r.pick(&[2u8, 4, 3, 0x30, 5, 6]), 0x80 | nb as u8];
            let mut lf = vec![0; nb];
            for _ in 0..r.b(3) {
                if nb > 0 {
                    let k = r.b(nb);
                    lf[k] = r.byte();
                }
            }
            if r.one_in(3) {
                lf.fill(0xff);
            }
            x.extend(&lf);
            let k = r.b(6);
            x.extend(r.bytes(k));
            if r.one_in(3) {
                x.truncate(r.b(x.len() + 1));
            }
            d = x;
        }
    }
    vec![e("der", vec![("data", b(&d))])]
}

// ------------------------------------------------------------------ RSA
pub fn int(r: &mut Rng, x: &Nat) -> T {
    let mut c = x.to_be();
    if c.is_empty() || c[0] >= 128 {
        c.insert(0, 0);
    }
    if r.one_in(10) {
        for _ in 0..r.r(1, 3) {
            c.insert(0, 0);
        }
    }
    T::P(2, c)
}
pub const RSA_OID: [u8; 9] = [42, 134, 72, 134, 247, 13, 1, 1, 1];
pub fn some_key(r: &mut Rng, lo: usize, hi: usize) -> (Nat, Nat, Nat, Nat, Nat) {
    let v: Vec<_> = KEYS.iter().filter(|k| k.0 >= lo && k.0 <= hi).collect();
    let k = v[r.b(v.len())];
    let (p, q) = (Nat::from_hex(k.1), Nat::from_hex(k.2));
    (p.mul(&q), Nat::from_hex(k.3), Nat::from_hex(k.4), p, q)
}
pub fn pub_tree(r: &mut Rng, nn: &Nat, x: &Nat) -> T {
    T::S(vec![T::S(vec![T::P(6, RSA_OID.to_vec()), T::P(5, vec![])]), T::P(3, vec![]), T::S(vec![int(r, nn), int(r, x)])])
}
pub fn priv_tree(r: &mut Rng, v: &[Nat]) -> T {
    let mut k = vec![T::P(2, vec![0])];
    k.extend(v.iter().map(|x| int(r, x)));
    T::S(vec![T::P(2, vec![0]), T::S(vec![T::P(6, RSA_OID.to_vec()), T::P(5, vec![])]), T::P(4, vec![]), T::S(k)])
}
/// the inner structure is the last element of the outer one; put it into the string before it
pub fn wrap(r: &mut Rng, t: T, style: usize, tail: &[u8]) -> Vec<u8> {
    if let T::S(mut v) = t {
        if let Some(inner) = v.pop() {
            let mut c = enc(r, style, &inner);
            c.extend(tail);
            match v.pop() {
                Some(T::P(tag, mut p)) => {
                    if tag == 3 && p.is_empty() {
                        p = vec![0];
                    }
                    p.extend(c);
                    v.push(T::P(tag, p));
                }
                Some(x) => v.push(x),
                None => (),
            }
        }
        return enc(r, style, &T::S(v));
    }
    enc(r, style, &t)
}
pub fn import(r: &mut Rng, private: bool, nn: &Nat, x: &Nat, rest: &[Nat]) -> J {
    let style = r.b(2);
    let (op, lb) = if private { ("priv", "PRIVATE KEY") } else { ("pub", "PUBLIC KEY") };
    let t = if private {
        let mut v = vec![nn.clone(), rest[0].clone(), x.clone()];
        v.extend(rest[1..].iter().cloned());
        priv_tree(r, &v)
    } else {
        pub_tree(r, nn, x)
    };
    let d = wrap(r, t, style, &[]);
    e(op, vec![("label", cps(lb)), ("data", b(&d)), ("via", n(r.b(2)))])
}
/// x with a small change, or none
fn near(r: &mut Rng, x: &Nat) -> Nat {
    let mut d = x.to_be();
    match r.b(6) {
        0 if !d.is_empty() => {
            let k = r.b(d.len());
            d[k] ^= 1 << r.b(8);
        }
        1 => d.push(r.byte()),
        2 => {
            d.pop();
        }
        3 => d.insert(0, r.pick(&[0, 1, 128])),
        _ => (),
    }
    Nat::from_be(&d)
}
/// keys as values, and decoded values
fn values(r: &mut Rng, small: bool) -> Vec<J> {
    if r.one_in(3) {
        let dp = r.b(4);
        let t = tree(r, dp, small);
        let st = r.b(2);
        let x = enc(r, st, &t);
        let mut v = vec![];
        for _ in 0..r.r(1, 3) {
            let mut u = t.clone();
            for _ in 0..r.b(3) {
                poke(r, &mut u);
            }
            let st = r.b(2);
            let mut y = enc(r, st, &u);
            if r.one_in(12) {
                y.pop();
            }
            let (p, q) = if r.one_in(2) { (&x, &y) } else { (&y, &x) };
            v.push(e("der_eq", vec![("data", b(p)), ("data2", b(q))]));
        }
        return v;
    }
    let ml = if small { 6 } else { r.top(30).min(200) };
    let nn = modulus(r, ml);
    let xl = if small { 4 } else { r.top(12).min(200) };
    let l = r.b(xl);
    let x = number(r, l);
    let mut v = vec![];
    let mut kinds = vec![];
    let mut moduli: Vec<Nat> = vec![];
    const P: [u32; 8] = [3, 5, 7, 11, 23, 47, 257, 65537];
    for _ in 0..r.r(2, 4) {
        match r.b(8) {
            0 => {
                let (i, j) = (r.b(8), r.b(7));
                let (p, q) = (P[i], P[if j >= i { j + 1 } else { j }]);
                let x = r.pick(&[5u32, 7, 13, 65537, 257]);
                if (p - 1) % x != 0 && (q - 1) % x != 0 {
                    v.push(e("create", vec![("p", b(&p.to_be_bytes())), ("q", b(&q.to_be_bytes())), ("e", b(&x.to_be_bytes()))]));
                    kinds.extend([true, false]);
                    let m = Nat(vec![p]).mul(&Nat(vec![q]));
                    moduli.extend([m.clone(), m]);
                }
            }
            1 if !kinds.is_empty() => {
                let o = r.b(kinds.len());
                v.push(e("kclone", vec![("obj", n(o + 1))]));
                kinds.push(kinds[o]);
                moduli.push(moduli[o].clone());
            }
            _ => {
                let private = if kinds.is_empty() || r.one_in(5) { r.one_in(2) } else { kinds[0] };
                let (a, c) = if r.one_in(3) { (nn.clone(), x.clone()) } else if r.one_in(2) { (near(r, &nn), x.clone()) } else { (nn.clone(), near(r, &x)) };
                let rest: Vec<Nat> = (0..6).map(|_| { let k = r.b(4); number(r, k) }).collect();
                v.push(import(r, private, &a, &c, &rest));
                kinds.push(private);
                moduli.push(a);
            }
        }
    }
    for _ in 0..r.r(1, 6) {
        let i = r.b(kinds.len());
        let same: Vec<usize> = (0..kinds.len()).filter(|j| kinds[*j] == kinds[i]).collect();
        let j = r.pick(&same);
        v.push(e("keq", vec![("obj", n(i + 1)), ("other", n(j + 1))]));
        if r.one_in(4) {
            v.push(e("kclone", vec![("obj", n(i + 1))]));
            kinds.push(kinds[i]);
            let m = moduli[i].clone();
            if m.bits() > 1 && m.bits() < 200 {
                let o = operand(r, &m);
                v.push(raw_ev(r, kinds.len(), &o));
            }
            moduli.push(m);
        }
    }
    v
}
/// a small change somewhere in a tree
fn poke(r: &mut Rng, t: &mut T) {
    match t {
        T::S(v) if !v.is_empty() && !r.one_in(4) => {
            let k = r.b(v.len());
            poke(r, &mut v[k])
        }
        T::S(v) => match r.b(4) {
            0 if !v.is_empty() => {
                let k = r.b(v.len());
                v.remove(k);
            }
            1 if v.len() > 1 => {
                let k = r.b(v.len() - 1);
                v.swap(k, k + 1);
            }
            2 if !v.is_empty() => {
                let x = v[r.b(v.len())].clone();
                v.push(x);
            }
            _ => v.push(T::S(vec![])),
        },
        T::P(tag, c) => match r.b(5) {
            0 if !c.is_empty() => {
                let k = r.b(c.len());
                c[k] ^= 1 << r.b(8);
            }
            1 if *tag != 5 => c.push(0),
            2 if c.len() > 1 => {
                c.pop();
            }
            3 if *tag != 3 && *tag != 5 => c.insert(0, 0),
            _ if *tag != 5 && *tag != 3 => *tag = r.pick(&[2, 4, 6]),
            _ => (),
        },
    }
}
fn number(r: &mut Rng, l: usize) -> Nat {
    Nat::from_be(&r.bytes(l))
}
fn modulus(r: &mut Rng, l: usize) -> Nat {
    loop {
        let k = r.r(1, l);
        let x = number(r, k);
        if x.bits() > 1 {
            return x;
        }
    }
}
pub fn raw_ev(r: &mut Rng, o: usize, m: &Nat) -> J {
    let mut d = m.to_be();
    if r.one_in(5) {
        d.insert(0, 0);
    }
    e("raw", vec![("obj", n(o)), ("data", b(&d)), ("dir", s(r.pick(&["enc", "dec"])))])
}
fn operand(r: &mut Rng, nn: &Nat) -> Nat {
    let l = nn.to_be().len();
    let one = Nat(vec![1]);
    match r.b(8) {
        0 => Nat(vec![]),
        1 => one,
        2 => nn.sub(&one),
        3 => nn.clone(),
        4 => nn.add(&one),
        5 => {
            let k = r.b(l + 4);
            number(r, k)
        }
        _ => number(r, l).rem(nn),
    }
}
fn key_files(r: &mut Rng, small: bool) -> Vec<J> {
    let private = r.one_in(2);
    let ml = if small { 6 } else { 12 };
    let nn = modulus(r, ml);
    let l = r.b(if small { 3 } else { 6 });
    let x = number(r, l);
    let mut rest: Vec<Nat> = (0..6)
        .map(|_| {
            let k = r.b(9);
            number(r, k)
        })
        .collect();
    if r.one_in(4) {
        rest[0] = Nat(vec![0x12345677, 0x99999999, 3]);
    }
    if r.one_in(3) {
        let mut v = vec![import(r, private, &nn, &x, &rest)];
        let m = operand(r, &nn);
        v.push(raw_ev(r, 1, &m));
        return v;
    }
    // a damaged file
    let (op, mut lb) = if private { ("priv", "PRIVATE KEY") } else { ("pub", "PUBLIC KEY") };
    let t = if private {
        let mut v = vec![nn.clone(), rest[0].clone(), x.clone()];
        v.extend(rest[1..].iter().cloned());
        priv_tree(r, &v)
    } else {
        pub_tree(r, &nn, &x)
    };
    let mut t = t;
    let mut tail = vec![];
    let mut d = None;
    let T::S(v) = &mut t else { return vec![] };
    let inner = v.len() - 1;
    let alg = if private { 1 } else { 0 };
    match r.b(14) {
        0 => lb = r.pick(&["", "PRIVATE KEY ", " PRIVATE KEY", "private key", "RSA PRIVATE KEY", "PUBLIC KEY", "PRIVATE KEY", "EC PRIVATE KEY", "RSA PUBLIC KEY", "KEY"]),
        1 => {
            if let T::S(k) = &mut v[inner] {
                let j = r.b(k.len());
                k.remove(j);
            }
        }
        2 => {
            if let T::S(k) = &mut v[inner] {
                let j = r.b(k.len() + 1);
                k.insert(j, T::P(r.pick(&[2, 5]), vec![]));
                if let T::P(2, c) = &mut k[j] {
                    c.push(7);
                }
            }
        }
        3 => {
            if let T::S(k) = &mut v[inner] {
                let j = r.b(k.len());
                if let T::P(tag, _) = &mut k[j] {
                    *tag = r.pick(&[3, 4, 6]);
                }
                if r.one_in(3) {
                    k[j] = T::S(vec![]);
                }
            }
        }
        4 => {
            if let T::S(k) = &mut v[alg] {
                match r.b(7) {
                    0 => {
                        k.pop();
                    }
                    1 => {
                        k.remove(0);
                    }
                    2 => k.push(T::P(5, vec![])),
                    3 => k.swap(0, 1),
                    4 => k[1] = T::S(vec![]),
                    5 => k[1] = T::P(2, vec![0]),
                    _ => {
                        if let T::P(_, o) = &mut k[0] {
                            match r.b(4) {
                                0 => {
                                    o.pop();
                                }
                                1 => o.push(1),
                                2 => {
                                    let l = o.len();
                                    o[l - 1] = r.pick(&[0, 2, 4, 5, 7, 10, 11, 0x81]);
                                }
                                _ => {
                                    let j = r.b(o.len());
                                    o[j] ^= 1 << r.b(8);
                                }
                            }
                        }
                    }
                }
            }
        }
        5 => {
            if private {
                v[0] = match r.b(4) {
                    0 => T::P(2, vec![r.r(1, 255) as u8]),
                    1 => T::P(2, vec![0, 1]),
                    2 => T::P(4, vec![0]),
                    _ => T::P(2, vec![1, 0]),
                };
            } else if let T::P(_, c) = &mut v[1] {
                *c = vec![r.r(1, 255) as u8];
            }
        }
        6 => {
            let j = r.b(inner);
            v.remove(j);
        }
        7 => {
            let j = r.b(inner + 1);
            v.insert(j.min(inner - 1), T::P(5, vec![]));
        }
        8 => {
            if let T::P(tag, _) = &mut v[inner - 1] {
                *tag = r.pick(&[2, 6, if private { 3 } else { 4 }]);
            }
        }
        9 => {
            let k = r.r(1, 3);
            tail = r.bytes(k);
        }
        10 => v[inner] = T::P(r.pick(&[2, 4, 3]), vec![1, 2, 3]),
        k => {
            let mut x = wrap(r, t.clone(), 0, &[]);
            let j = if k == 11 { r.b(x.len()) } else { r.b(x.len().min(30)) };
            match r.b(4) {
                0 => x.truncate(j),
                1 => x.push(r.byte()),
                2 => x[j] = r.byte(),
                _ => {
                    x.remove(j);
                }
            }
            d = Some(x);
        }
    }
    let d = match d {
        Some(d) => d,
        None => {
            let st = r.b(2);
            wrap(r, t, st, &tail)
        }
    };
    vec![e(op, vec![("label", cps(lb)), ("data", b(&d)), ("via", n(0))])]
}

fn mulm(a: u64, c: u64, m: u64) -> u64 {
    (a as u128 * c as u128 % m as u128) as u64
}
pub fn is_prime(x: u64) -> bool {
    const P: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if x < 2 {
        return false;
    }
    for p in P {
        if x % p == 0 {
            return x == p;
        }
    }
    let sh = (x - 1).trailing_zeros();
    'o: for a in P {
        let (mut y, mut k, mut ex) = (1u64, a, (x - 1) >> sh);
        while ex > 0 {
            if ex & 1 == 1 {
                y = mulm(y, k, x);
            }
            k = mulm(k, k, x);
            ex >>= 1;
        }
        if y == 1 || y == x - 1 {
            continue;
        }
        for _ in 1..sh {
            y = mulm(y, y, x);
            if y == x - 1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}
pub fn prime(r: &mut Rng, bits: usize) -> u64 {
    loop {
        let mut x = r.u() >> (64 - bits);
        if r.one_in(3) {
            // close to the ends of the range
            x = if r.one_in(2) { (u64::MAX >> (64 - bits)) - r.b(300.min(1 << (bits - 1))) as u64 } else { (1 << (bits - 1)) + r.b(300.min(1 << (bits - 1))) as u64 };
        }
        while !is_prime(x) && x < u64::MAX {
            x += 1;
        }
        if is_prime(x) {
            return x;
        }
    }
}
pub fn gcd(a: u128, c: u128) -> u128 {
    if c == 0 { a } else { gcd(c, a % c) }
}
fn create(r: &mut Rng, small: bool) -> Vec<J> {
    let (bp, bq) = if small { (r.r(2, 20), r.r(2, 20)) } else { (r.r(2, 64), r.r(2, 64)) };
    let (p, q) = (prime(r, bp), prime(r, bq));
    if p == q {
        return create(r, small);
    }
    let phi = (p as u128 - 1) * (q as u128 - 1);
    let l = phi / gcd(p as u128 - 1, q as u128 - 1);
    let ex: u128 = match r.b(8) {
        0 => r.pick(&[1, 2, 3, 5, 17, 257, 65537]),
        1 => l - 1,
        2 => l + 1,
        3 => l.saturating_mul(r.r(1, 3) as u128) + r.b(10) as u128,
        4 => (r.u() as u128) << 64 | r.u() as u128,
        5 => r.b(30) as u128,
        _ => ((r.u() as u128) << 64 | r.u() as u128) >> r.b(120),
    };
    let bad = gcd(ex, phi) != 1;
    let be = |x: u128| -> Vec<u8> { x.to_be_bytes().iter().copied().skip_while(|&c| c == 0).collect() };
    let mut v = vec![e("create", vec![("p", b(&be(p as u128))), ("q", b(&be(q as u128))), ("e", b(&be(ex))), ("_bad", n(bad as usize))])];
    if !bad {
        let nn = Nat::from_be(&be(p as u128 * q as u128));
        let m = operand(r, &nn).rem(&nn);
        v.push(raw_ev(r, 2, &m));
        v.push(e("raw", vec![("obj", n(1)), ("refs", J::Arr(vec![n(2)])), ("dir", s(r.pick(&["enc", "dec"])))]));
        v.push(raw_ev(r, 1, &m));
        v.push(e("raw", vec![("obj", n(2)), ("refs", J::Arr(vec![n(4)])), ("dir", s(r.pick(&["enc", "dec"])))]));
    }
    v
}
fn raw(r: &mut Rng, small: bool) -> Vec<J> {
    let l = if small { r.pick(&[1, 2, 4, 8, 17]) } else { r.pick(&[1, 1, 2, 3, 4, 9, 17, 24]) };
    let nn = modulus(r, l);
    let el = if small { r.b(3) } else { r.b(5) };
    let el = if r.one_in(10) { el + 8 } else { el };
    let x = number(r, el);
    let rest: Vec<Nat> = (0..6).map(|_| Nat(vec![5])).collect();
    let pr = r.one_in(2);
    let mut v = vec![import(r, pr, &nn, &x, &rest)];
    for _ in 0..3 {
        let m = operand(r, &nn);
        v.push(raw_ev(r, 1, &m));
    }
    v
}
fn messages(r: &mut Rng, small: bool, damage: bool) -> Vec<J> {
    let pad = if r.one_in(3) { "oaep" } else { "toy" };
    let top = if small || !r.one_in(4) { 560 } else { 800 };
    let (nn, ex, d, p, q) = if pad == "oaep" { some_key(r, 521, top) } else { some_key(r, 17, if small { 140 } else { 200 }) };
    let k = nn.to_be().len();
    let fit = if pad == "oaep" { k as i64 - 66 } else { k as i64 - 2 };
    let ml = match r.b(6) {
        0 => 0,
        1 => fit.max(0) as usize,
        2 => (fit + 1 + r.b(3) as i64).max(0) as usize,
        _ => r.b(fit.max(0) as usize + 1),
    };
    let fits = (ml as i64) <= fit;
    let m = r.bytes(ml);
    let one = Nat(vec![1]);
    let rest = [ex.clone(), p.clone(), q.clone(), d.rem(&p.sub(&one)), d.rem(&q.sub(&one)), one.clone()];
    let mut v = vec![import(r, true, &nn, &d, &rest), import(r, false, &nn, &ex, &rest)];
    // messages are encrypted with the public key; the other direction is the same operation
    let w = |x: &Nat| vec![("_wn", s(&nn.hex())), ("_wx", s(&x.hex()))];
    let swap = pad == "toy" && r.one_in(4);
    let (enc_o, dec_o, enc_w, dec_w) = if swap { (1, 2, &ex, &ex) } else { (2, 1, &d, &d) };
    if fits || !damage || r.one_in(4) {
        let mut f = vec![("obj", n(enc_o)), ("pad", s(pad)), ("data", b(&m))];
        f.extend(w(enc_w));
        v.push(e("encmsg", f));
    }
    if !fits {
        return v;
    }
    let mut f = vec![("obj", n(dec_o)), ("pad", s(pad))];
    f.extend(w(dec_w));
    if !damage {
        f.push(("refs", J::Arr(vec![n(3)])));
        v.push(e("decmsg", f));
        return v;
    }
    if v.len() == 3 && r.one_in(2) {
        f.push(("refs", J::Arr(vec![n(3)])));
        match r.b(6) {
            0 => f.push(("cut", n(r.b(k + 1)))),
            1 => f.push(("skip", n(r.b(3)))),
            2 => {
                let z = r.r(1, 2);
                f.push(("pre", b(&vec![0; z])));
            }
            3 => f.push(("post", b(&[r.byte()]))),
            4 => f.push(("pre", b(&[r.byte()]))),
            _ => f.push(("xor", json::ints(&[r.b(k) as i64, 1 << r.b(8)]))),
        }
    } else {
        // chosen ciphertexts: numbers, or the encryption of a chosen encoded message
        let x = operand(r, &nn);
        let x = match r.b(4) {
            0 => {
                let mut em = if pad == "oaep" && fit >= 0 { mirror::oaep_encode(b"", &m, k, &r.bytes(32)) } else {
                    let mut em = vec![0; k.saturating_sub(m.len() + 1)];
                    em.push(1);
                    em.extend(&m);
                    em
                };
                if r.one_in(2) {
                    let j = if r.one_in(3) { 0 } else { r.b(em.len().min(40)) };
                    em[j] ^= if r.one_in(2) { r.pick(&[1, 2, 0x80]) } else { r.byte() };
                }
                let c = Nat::from_be(&em).rem(&nn).pow_mod(if swap { &d } else { &ex }, &nn);
                if r.one_in(4) { c.add(&nn) } else { c }
            }
            _ => x,
        };
        let mut c = x.to_be();
        while c.len() < k && !r.one_in(8) {
            c.insert(0, 0);
        }
        f.push(("data", b(&c)));
    }
    v.push(e("decmsg", f));
    v
}
fn oaep_sizes(r: &mut Rng, small: bool) -> (usize, usize) {
    let k = match r.b(6) {
        0 => r.pick(&[64, 65, 66, 67, 97, 98, 128, 129, 130, 256]),
        1 => r.r(66, 140),
        2 if !small => {
            let m = r.top(1200).clamp(67, 40000);
            r.r(66, m)
        }
        3 if !small && r.one_in(60) => r.pick(&[8192, 8224, 8225, 8226, 8300, 16500]),
        _ => r.r(66, if small { 130 } else { 400 }),
    };
    let fit = k.saturating_sub(66);
    let m = match r.b(5) {
        0 => 0,
        1 => fit,
        2 => fit + r.b(3),
        _ => r.b(fit + 1),
    };
    (k, m)
}
fn oaep_label(r: &mut Rng) -> Vec<u8> {
    if let Some(t) = r.text() {
        return t;
    }
    let l = match r.b(3) {
        0 => 0,
        1 => r.b(4),
        _ => r.b(80),
    };
    r.bytes(l)
}
fn oaep_enc(r: &mut Rng, small: bool) -> Vec<J> {
    let (k, ml) = oaep_sizes(r, small);
    let m = r.bytes(ml);
    vec![e("oaep_enc", vec![("label", b(&oaep_label(r))), ("data", b(&m)), ("n", n(k))])]
}
fn oaep_dec(r: &mut Rng, small: bool) -> Vec<J> {
    let (k, ml) = oaep_sizes(r, small);
    let mut k = k;
    let lb = oaep_label(r);
    let mut lb2 = lb.clone();
    let mut em = if k >= 66 && ml + 66 <= k && !r.one_in(20) {
        let m = r.bytes(ml);
        let seed = r.bytes(32);
        // a chosen data block, masked correctly
        let mut db = mirror::hash("sha256", &lb);
        db.resize(k - 34 - ml, 0);
        db.push(1);
        db.extend(&m);
        let mut first = 0;
        match r.b(10) {
            0 => {
                let j = r.b(32);
                db[j] ^= 1 << r.b(8);
            }
            1 => {
                let j = r.r(32, k - 34 - ml);
                db[j] = r.byte();
            }
            2 => db[32..].fill(0),
            3 => {
                let x = r.byte();
                db[k - 34 - ml] = x;
            }
            4 => first = r.byte(),
            5 if k - 34 - ml > 32 => {
                let j = r.r(32, k - 34 - ml - 1);
                db[j] = r.pick(&[1, 2, 0xff]);
            }
            6 => lb2 = oaep_label(r),
            _ => {}
        }
        for (a, c) in db.iter_mut().zip(mirror::mgf1(&seed, k - 33)) {
            *a ^= c;
        }
        let mut o = vec![first];
        o.extend(seed.iter().zip(mirror::mgf1(&db, 32)).map(|(a, c)| a ^ c));
        o.extend(db);
        o
    } else {
        let l = if r.one_in(2) { k } else { r.b(80) };
        r.bytes(l)
    };
    match r.b(12) {
        0 if !em.is_empty() => {
            let j = r.b(em.len());
            em[j] ^= 1 << r.b(8);
        }
        1 => em.truncate(r.b(em.len() + 1)),
        2 => {
            em.pop();
            if r.one_in(2) {
                k -= 1;
            }
        }
        3 => em.push(r.byte()),
        4 => k = r.pick(&[k + 1, k - 1, 0, 1, 33, 34, 65, 66]),
        5 => em.insert(0, 0),
        6 => {
            let l = r.b(67);
            em = r.bytes(l);
            k = r.pick(&[k, em.len()]);
        }
        _ => {}
    }
    vec![e("oaep_dec", vec![("label", b(&lb2)), ("data", b(&em)), ("n", n(k))])]
}

// ------------------------------------------------------------------ refusals
fn refusals(r: &mut Rng) -> Vec<J> {
    match r.b(8) {
        0 => {
            let l = r.pick(&[0, 0, 129, 130, 200, 255, 256, 257, 300, 1000]);
            vec![e("rc2", vec![("key", b(&r.bytes(l))), ("bits", n(r.r(1, 1024)))])]
        }
        1 => {
            let l = r.r(1, 128);
            vec![e("rc2", vec![("key", b(&r.bytes(l))), ("bits", n(r.pick(&[0, 0, 1025, 1026, 1032, 2000, 2048, 4096, 65535])))])]
        }
        2 => vec![e(r.pick(&["rc4enc", "rc4dec"]), vec![("key", b(&[])), ("data", b(&r.bytes(3)))])],
        3 => vec![e("rc4", vec![("key", b(&[]))])],
        4 => {
            let l = r.pick(&[256, 257, 260, 300, 511, 512, 513, 1000, 65536 / 8]);
            vec![e("rc5", vec![("key", b(&r.bytes(l))), ("rounds", n(r.b(256)))])]
        }
        5 | 6 => {
            let l = r.b(20);
            let d = r.bytes(l);
            let nb = Nat::from_be(&d).to_be().len() as u64 * 8;
            let k = nb + r.pick(&[0u64, 1, 7, 8, 9, 64, 1000, 65536, 0x7fff0000, 0xffff0000]);
            vec![e("be", vec![("data", b(&d))]), e(r.pick(&["set", "clear"]), vec![("obj", n(1)), ("n", amt(k.min(0xffffffff)))]), e("bytes", vec![("obj", n(1))])]
        }
        _ => {
            let mut v: Vec<Vec<u8>> = vec![vec![11], vec![13], vec![7]];
            let k = r.b(3);
            let l = r.r(17, 20);
            v[k] = r.bytes(l);
            v[k][0] |= 1;
            let at = v[k].len() - 1;
            v[k][at] |= 1;
            if r.one_in(3) {
                // two numbers that fit, whose product does not
                v[k] = vec![255; 16];
                v[(k + 1) % 3] = vec![255; 16];
                v[2] = vec![5];
            }
            vec![e("create", vec![("p", b(&v[0])), ("q", b(&v[1])), ("e", b(&v[2]))])]
        }
    }
}
