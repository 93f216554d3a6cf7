//! Executable mirrors of the TLA+ specification, used only to search for suspicious inputs in bulk
//! and to compute chaining values of messages too long for TLC. They never decide anything: a
//! disagreement only makes a session that TLC then judges against the specification.

// ------------------------------------------------------------------ AES
pub struct Aes {
    rk: Vec<[u8; 16]>,
}
struct AesTab {
    s: [u8; 256],
    inv: [u8; 256],
    m: [[u8; 256]; 15],
}
fn gmul(mut a: u32, mut b: u32) -> u8 {
    let mut r = 0;
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a <<= 1;
        if a & 0x100 != 0 {
            a ^= 0x11b;
        }
        b >>= 1;
    }
    r as u8
}
fn tab() -> &'static AesTab {
    static T: std::sync::OnceLock<AesTab> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = AesTab { s: [0; 256], inv: [0; 256], m: [[0; 256]; 15] };
        for k in 0..15u32 {
            for a in 0..256u32 {
                t.m[k as usize][a as usize] = gmul(a, k);
            }
        }
        for a in 0..256u32 {
            let mut i = 0u32;
            if a != 0 {
                i = (1..256).find(|&x| gmul(a, x) == 1).unwrap();
            }
            let mut v = 0u8;
            for bit in 0..8 {
                let x = (i >> bit) ^ (i >> ((bit + 4) % 8)) ^ (i >> ((bit + 5) % 8)) ^ (i >> ((bit + 6) % 8)) ^ (i >> ((bit + 7) % 8)) ^ (0x63 >> bit);
                v |= ((x & 1) as u8) << bit;
            }
            t.s[a as usize] = v;
            t.inv[v as usize] = a as u8;
        }
        t
    })
}
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tab();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rc = gmul(rc as u32, 2);
            } else if nk == 8 && i % 8 == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut o = [0; 16];
                for i in 0..16 {
                    o[i] = c[i / 4][i % 4];
                }
                o
            })
            .collect();
        Aes { rk }
    }
    pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tab();
        let nr = self.rk.len() - 1;
        let mut s: [u8; 16] = std::array::from_fn(|i| b[i] ^ self.rk[0][i]);
        for r in 1..=nr {
            let u: [u8; 16] = std::array::from_fn(|i| t.s[s[(i + 4 * (i % 4)) % 16] as usize]);
            let v: [u8; 16] = if r == nr {
                u
            } else {
                std::array::from_fn(|i| {
                    let (c, k) = (i & 12, i & 3);
                    let a = |j: usize| u[c + ((k + j) & 3)] as usize;
                    t.m[2][a(0)] ^ t.m[3][a(1)] ^ a(2) as u8 ^ a(3) as u8
                })
            };
            s = std::array::from_fn(|i| v[i] ^ self.rk[r][i]);
        }
        s
    }
    pub fn dec(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tab();
        let nr = self.rk.len() - 1;
        let mut s = b;
        for r in (0..=nr).rev() {
            let u: [u8; 16] = std::array::from_fn(|i| s[i] ^ self.rk[r][i]);
            if r == 0 {
                return u;
            }
            let v: [u8; 16] = if r == nr {
                u
            } else {
                std::array::from_fn(|i| {
                    let (c, k) = (i & 12, i & 3);
                    let a = |j: usize| u[c + ((k + j) & 3)] as usize;
                    t.m[14][a(0)] ^ t.m[11][a(1)] ^ t.m[13][a(2)] ^ t.m[9][a(3)]
                })
            };
            s = std::array::from_fn(|i| t.inv[v[(i + 12 * (i % 4)) % 16] as usize]);
        }
        unreachable!()
    }
}

// ------------------------------------------------------------------ RC2
const PI: [u8; 256] = *include_bytes!("../rc2pi.bin");
pub struct Rc2 {
    k: [u16; 64],
}
impl Rc2 {
    pub fn new(key: &[u8], bits: usize) -> Rc2 {
        let mut l = key.to_vec();
        let t = key.len();
        while l.len() < 128 {
            let n = l.len();
            l.push(PI[((l[n - 1] as usize) + (l[n - t] as usize)) % 256]);
        }
        let t8 = (bits + 7) / 8;
        let mask = 255u32 >> (8 * t8 - bits);
        l[128 - t8] = PI[(l[128 - t8] as u32 & mask) as usize];
        for i in (0..128 - t8).rev() {
            l[i] = PI[(l[i + 1] ^ l[i + t8]) as usize];
        }
        Rc2 { k: std::array::from_fn(|i| l[2 * i] as u16 | (l[2 * i + 1] as u16) << 8) }
    }
    pub fn enc(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r: [u16; 4] = std::array::from_fn(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8);
        let mut j = 0;
        for round in 0..16 {
            for i in 0..4 {
                let (a, c, d) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                let x = (r[i] as u32 + self.k[j] as u32 + (a & c) as u32 + (!a & d) as u32) as u16;
                r[i] = x.rotate_left([1, 2, 3, 5][i]);
                j += 1;
            }
            if round == 4 || round == 10 {
                for i in 0..4 {
                    r[i] = (r[i] as u32 + self.k[(r[(i + 3) & 3] & 63) as usize] as u32) as u16;
                }
            }
        }
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
    pub fn dec(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r: [u16; 4] = std::array::from_fn(|i| b[2 * i] as u16 | (b[2 * i + 1] as u16) << 8);
        let mut j = 64;
        for round in (0..16).rev() {
            if round == 4 || round == 10 {
                for i in (0..4).rev() {
                    r[i] = (r[i] as i32 - self.k[(r[(i + 3) & 3] & 63) as usize] as i32) as u16;
                }
            }
            for i in (0..4).rev() {
                j -= 1;
                let (a, c, d) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                let x = r[i].rotate_right([1, 2, 3, 5][i]);
                r[i] = (x as i32 - self.k[j] as i32 - (a & c) as i32 - (!a & d) as i32) as u16;
            }
        }
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
}

// ------------------------------------------------------------------ RC5
pub struct Rc5 {
    s: Vec<u32>,
}
impl Rc5 {
    pub fn new(key: &[u8], rounds: usize) -> Rc5 {
        let c = std::cmp::max(1, (key.len() + 3) / 4);
        let mut l = vec![0u32; c];
        for (i, &b) in key.iter().enumerate() {
            l[i / 4] |= (b as u32) << (8 * (i % 4));
        }
        let t = 2 * rounds + 2;
        let mut s: Vec<u32> = (0..t as u32).map(|i| 0xb7e15163u32.wrapping_add(i.wrapping_mul(0x9e3779b9))).collect();
        let (mut a, mut b) = (0u32, 0u32);
        for k in 0..3 * std::cmp::max(t, c) {
            a = s[k % t].wrapping_add(a).wrapping_add(b).rotate_left(3);
            s[k % t] = a;
            let n = a.wrapping_add(b);
            b = l[k % c].wrapping_add(n).rotate_left(n & 31);
            l[k % c] = b;
        }
        Rc5 { s }
    }
    pub fn enc(&self, x: [u8; 8]) -> [u8; 8] {
        let mut a = u32::from_le_bytes([x[0], x[1], x[2], x[3]]).wrapping_add(self.s[0]);
        let mut b = u32::from_le_bytes([x[4], x[5], x[6], x[7]]).wrapping_add(self.s[1]);
        for p in self.s[2..].chunks(2) {
            a = (a ^ b).rotate_left(b & 31).wrapping_add(p[0]);
            b = (b ^ a).rotate_left(a & 31).wrapping_add(p[1]);
        }
        let (a, b) = (a.to_le_bytes(), b.to_le_bytes());
        [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]]
    }
    pub fn dec(&self, x: [u8; 8]) -> [u8; 8] {
        let mut a = u32::from_le_bytes([x[0], x[1], x[2], x[3]]);
        let mut b = u32::from_le_bytes([x[4], x[5], x[6], x[7]]);
        for p in self.s[2..].chunks(2).rev() {
            b = b.wrapping_sub(p[1]).rotate_right(a & 31) ^ a;
            a = a.wrapping_sub(p[0]).rotate_right(b & 31) ^ b;
        }
        let (a, b) = (a.wrapping_sub(self.s[0]).to_le_bytes(), b.wrapping_sub(self.s[1]).to_le_bytes());
        [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]]
    }
}

// ------------------------------------------------------------------ RC4
pub struct Rc4 {
    s: [u8; 256],
    i: usize,
    j: usize,
}
impl Rc4 {
    pub fn new(key: &[u8]) -> Rc4 {
        let mut s: [u8; 256] = std::array::from_fn(|i| i as u8);
        let mut j = 0;
        for i in 0..256 {
            j = (j + s[i] as usize + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        Rc4 { s, i: 0, j: 0 }
    }
    pub fn next(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i] as usize) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] as usize + self.s[self.j] as usize) % 256]
    }
    pub fn state(&self) -> ([u8; 256], usize, usize) {
        (self.s, self.i, self.j)
    }
}

// ------------------------------------------------------------------ digests
const MD2S: [u8; 256] = *include_bytes!("../md2s.bin");
pub fn md2(m: &[u8]) -> Vec<u8> {
    let mut d = m.to_vec();
    let p = 16 - m.len() % 16;
    d.extend(std::iter::repeat(p as u8).take(p));
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for b in d.chunks(16) {
        for i in 0..16 {
            c[i] ^= MD2S[(b[i] ^ l) as usize];
            l = c[i];
        }
    }
    d.extend(c);
    let mut x = [0u8; 48];
    for b in d.chunks(16) {
        for i in 0..16 {
            x[16 + i] = b[i];
            x[32 + i] = b[i] ^ x[i];
        }
        let mut t = 0u8;
        for r in 0..18u32 {
            for v in x.iter_mut() {
                *v ^= MD2S[t as usize];
                t = *v;
            }
            t = (t as u32 + r) as u8;
        }
    }
    x[..16].to_vec()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Alg {
    Md4,
    Md5,
    Sha1,
    Sha224,
    Sha256,
    Sha384,
    Sha512,
}
pub fn alg(name: &str) -> Option<Alg> {
    Some(match name {
        "md4" => Alg::Md4,
        "md5" => Alg::Md5,
        "sha1" => Alg::Sha1,
        "sha224" => Alg::Sha224,
        "sha256" => Alg::Sha256,
        "sha384" => Alg::Sha384,
        "sha512" => Alg::Sha512,
        _ => return None,
    })
}
/// chaining value; 32-bit words are kept in the low half
#[derive(Clone)]
pub struct Chain {
    pub a: Alg,
    pub h: Vec<u64>,
}
/// floor(frac(p^(1/root)) * 2^64) for prime p, by bisection on 256-bit integers held in u32 limbs
fn root_frac(p: u64, root: u32) -> u64 {
    // find largest x < 2^67 with x^root <= p * 2^(64*root)
    let (mut lo, mut hi) = (0u128, 1u128 << 70);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        let mut v = vec![mid as u32, (mid >> 32) as u32, (mid >> 64) as u32];
        for _ in 1..root {
            v = mulv(&v, &[mid as u32, (mid >> 32) as u32, (mid >> 64) as u32]);
        }
        let mut t = vec![0u32; 2 * root as usize];
        t.push(p as u32);
        if cmpv(&v, &t) == std::cmp::Ordering::Greater {
            hi = mid;
        } else {
            lo = mid;
        }
    }
    lo as u64
}
fn mulv(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = r[i + j] as u64 + a[i] as u64 * b[j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    r
}
fn cmpv(a: &[u32], b: &[u32]) -> std::cmp::Ordering {
    let n = a.len().max(b.len());
    for i in (0..n).rev() {
        let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
        if x != y {
            return x.cmp(&y);
        }
    }
    std::cmp::Ordering::Equal
}
struct Consts {
    k512: [u64; 80],
    i512: [u64; 8],
    i384: [u64; 8],
    md5: [u32; 64],
}
fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let primes: Vec<u64> = (2..500u64).filter(|n| (2..*n).all(|d| n % d != 0)).take(80).collect();
        Consts {
            k512: std::array::from_fn(|i| root_frac(primes[i], 3)),
            i512: std::array::from_fn(|i| root_frac(primes[i], 2)),
            i384: std::array::from_fn(|i| root_frac(primes[i + 8], 2)),
            md5: std::array::from_fn(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32),
        }
    })
}
impl Chain {
    pub fn start(a: Alg) -> Chain {
        let md = [0x67452301u64, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
        let c = consts();
        let h = match a {
            Alg::Md4 | Alg::Md5 => md[..4].to_vec(),
            Alg::Sha1 => md.to_vec(),
            Alg::Sha256 => c.i512.iter().map(|x| x >> 32).collect(),
            Alg::Sha224 => c.i384.iter().map(|x| x & 0xffffffff).collect(),
            Alg::Sha384 => c.i384.to_vec(),
            Alg::Sha512 => c.i512.to_vec(),
        };
        Chain { a, h }
    }
    pub fn block_len(&self) -> usize {
        if matches!(self.a, Alg::Sha384 | Alg::Sha512) { 128 } else { 64 }
    }
    pub fn block(&mut self, b: &[u8]) {
        match self.a {
            Alg::Md4 => self.md4(b),
            Alg::Md5 => self.md5(b),
            Alg::Sha1 => self.sha1(b),
            Alg::Sha224 | Alg::Sha256 => self.sha256(b),
            _ => self.sha512(b),
        }
    }
    fn md4(&mut self, b: &[u8]) {
        let x: [u32; 16] = std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()));
        let mut s: [u32; 4] = std::array::from_fn(|i| self.h[i] as u32);
        const O2: [usize; 16] = [0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15];
        const O3: [usize; 16] = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15];
        for t in 0..48 {
            let [a, bb, c, d] = s;
            let (f, k, i, r) = match t / 16 {
                0 => ((bb & c) | (!bb & d), 0, t, [3, 7, 11, 19][t % 4]),
                1 => ((bb & c) | (bb & d) | (c & d), 0x5a827999u32, O2[t % 16], [3, 5, 9, 13][t % 4]),
                _ => (bb ^ c ^ d, 0x6ed9eba1, O3[t % 16], [3, 9, 11, 15][t % 4]),
            };
            s = [d, a.wrapping_add(f).wrapping_add(x[i]).wrapping_add(k).rotate_left(r), bb, c];
        }
        for i in 0..4 {
            self.h[i] = (self.h[i] as u32).wrapping_add(s[i]) as u64;
        }
    }
    fn md5(&mut self, b: &[u8]) {
        let k = &consts().md5;
        let x: [u32; 16] = std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()));
        let mut s: [u32; 4] = std::array::from_fn(|i| self.h[i] as u32);
        for t in 0..64 {
            let [a, bb, c, d] = s;
            let (f, i, r) = match t / 16 {
                0 => ((bb & c) | (!bb & d), t, [7, 12, 17, 22][t % 4]),
                1 => ((bb & d) | (c & !d), (5 * t + 1) % 16, [5, 9, 14, 20][t % 4]),
                2 => (bb ^ c ^ d, (3 * t + 5) % 16, [4, 11, 16, 23][t % 4]),
                _ => (c ^ (bb | !d), (7 * t) % 16, [6, 10, 15, 21][t % 4]),
            };
            s = [d, bb.wrapping_add(a.wrapping_add(f).wrapping_add(x[i]).wrapping_add(k[t]).rotate_left(r)), bb, c];
        }
        for i in 0..4 {
            self.h[i] = (self.h[i] as u32).wrapping_add(s[i]) as u64;
        }
    }
    fn sha1(&mut self, b: &[u8]) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let mut s: [u32; 5] = std::array::from_fn(|i| self.h[i] as u32);
        for t in 0..80 {
            let [a, bb, c, d, e] = s;
            let (f, k) = match t / 20 {
                0 => (d ^ (bb & (c ^ d)), 0x5a827999u32),
                1 => (bb ^ c ^ d, 0x6ed9eba1),
                2 => ((bb & c) | (d & (bb | c)), 0x8f1bbcdc),
                _ => (bb ^ c ^ d, 0xca62c1d6),
            };
            s = [a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[t]), a, bb.rotate_left(30), c, d];
        }
        for i in 0..5 {
            self.h[i] = (self.h[i] as u32).wrapping_add(s[i]) as u64;
        }
    }
    fn sha256(&mut self, b: &[u8]) {
        let k = &consts().k512;
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let (x, y) = (w[i - 15], w[i - 2]);
            w[i] = w[i - 16]
                .wrapping_add(x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3))
                .wrapping_add(w[i - 7])
                .wrapping_add(y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10));
        }
        let mut s: [u32; 8] = std::array::from_fn(|i| self.h[i] as u32);
        for t in 0..64 {
            let [a, bb, c, d, e, f, g, h] = s;
            let t1 = h
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add(g ^ (e & (f ^ g)))
                .wrapping_add((k[t] >> 32) as u32)
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & bb) | (c & (a | bb)));
            s = [t1.wrapping_add(t2), a, bb, c, d.wrapping_add(t1), e, f, g];
        }
        for i in 0..8 {
            self.h[i] = (self.h[i] as u32).wrapping_add(s[i]) as u64;
        }
    }
    fn sha512(&mut self, b: &[u8]) {
        let k = &consts().k512;
        let mut w = [0u64; 80];
        for i in 0..16 {
            w[i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        for i in 16..80 {
            let (x, y) = (w[i - 15], w[i - 2]);
            w[i] = w[i - 16]
                .wrapping_add(x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7))
                .wrapping_add(w[i - 7])
                .wrapping_add(y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6));
        }
        let mut s: [u64; 8] = std::array::from_fn(|i| self.h[i]);
        for t in 0..80 {
            let [a, bb, c, d, e, f, g, h] = s;
            let t1 = h
                .wrapping_add(e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41))
                .wrapping_add(g ^ (e & (f ^ g)))
                .wrapping_add(k[t])
                .wrapping_add(w[t]);
            let t2 = (a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39)).wrapping_add((a & bb) | (c & (a | bb)));
            s = [t1.wrapping_add(t2), a, bb, c, d.wrapping_add(t1), e, f, g];
        }
        for i in 0..8 {
            self.h[i] = self.h[i].wrapping_add(s[i]);
        }
    }
    /// finish with the bytes after the last whole block and the total length
    pub fn finish(mut self, tail: &[u8], total: u128) -> Vec<u8> {
        let bl = self.block_len();
        let lf = bl / 8;
        let mut d = tail.to_vec();
        d.push(0x80);
        while d.len() % bl != bl - lf {
            d.push(0);
        }
        let bits = total * 8;
        let be = bits.to_be_bytes();
        if matches!(self.a, Alg::Md4 | Alg::Md5) {
            d.extend(&bits.to_le_bytes()[..8]);
        } else {
            d.extend(&be[16 - lf..]);
        }
        for b in d.chunks(bl) {
            self.block(b);
        }
        let mut o = vec![];
        for &x in &self.h {
            match self.a {
                Alg::Md4 | Alg::Md5 => o.extend((x as u32).to_le_bytes()),
                Alg::Sha384 | Alg::Sha512 => o.extend(x.to_be_bytes()),
                _ => o.extend((x as u32).to_be_bytes()),
            }
        }
        o.truncate(match self.a {
            Alg::Sha224 => 28,
            Alg::Sha384 => 48,
            _ => o.len(),
        });
        o
    }
}
pub fn digest(a: Alg, m: &[u8]) -> Vec<u8> {
    let mut c = Chain::start(a);
    let bl = c.block_len();
    let it = m.chunks_exact(bl);
    let tail = it.remainder();
    for b in it {
        c.block(b);
    }
    c.finish(tail, m.len() as u128)
}
pub fn hash(name: &str, m: &[u8]) -> Vec<u8> {
    match alg(name) {
        None => md2(m),
        Some(a) => digest(a, m),
    }
}

// ------------------------------------------------------------------ OAEP
pub fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0u32;
    while o.len() < n {
        let mut m = seed.to_vec();
        m.extend(c.to_be_bytes());
        o.extend(digest(Alg::Sha256, &m));
        c += 1;
    }
    o.truncate(n);
    o
}
pub fn oaep_encode(label: &[u8], msg: &[u8], k: usize, seed: &[u8]) -> Vec<u8> {
    let mut db = digest(Alg::Sha256, label);
    db.resize(k - 34 - msg.len(), 0);
    db.push(1);
    db.extend(msg);
    for (a, b) in db.iter_mut().zip(mgf1(seed, k - 33)) {
        *a ^= b;
    }
    let mut o = vec![0];
    o.extend(seed.iter().zip(mgf1(&db, 32)).map(|(a, b)| a ^ b));
    o.extend(db);
    o
}
pub fn oaep_decode(label: &[u8], em: &[u8], k: usize) -> Option<Vec<u8>> {
    if em.len() != k || k < 66 || em[0] != 0 {
        return None;
    }
    let seed: Vec<u8> = em[1..33].iter().zip(mgf1(&em[33..], 32)).map(|(a, b)| a ^ b).collect();
    let db: Vec<u8> = em[33..].iter().zip(mgf1(&seed, k - 33)).map(|(a, b)| a ^ b).collect();
    if db[..32] != digest(Alg::Sha256, label)[..] {
        return None;
    }
    let mut i = 32;
    while i < db.len() && db[i] == 0 {
        i += 1;
    }
    if i == db.len() || db[i] != 1 {
        return None;
    }
    Some(db[i + 1..].to_vec())
}

// ------------------------------------------------------------------ natural numbers
/// little-endian u32 limbs without leading zero limbs
#[derive(Clone, PartialEq, Debug)]
pub struct Nat(pub Vec<u32>);
impl Nat {
    fn trim(mut self) -> Nat {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut v = vec![0u32; b.len() / 4 + 1];
        for (i, &x) in b.iter().rev().enumerate() {
            v[i / 4] |= (x as u32) << (8 * (i % 4));
        }
        Nat(v).trim()
    }
    pub fn to_be(&self) -> Vec<u8> {
        let mut o: Vec<u8> = self.0.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
        let z = o.iter().take_while(|&&x| x == 0).count();
        o.drain(..z);
        o
    }
    pub fn bits(&self) -> u64 {
        match self.0.last() {
            None => 0,
            Some(x) => 32 * self.0.len() as u64 - x.leading_zeros() as u64,
        }
    }
    pub fn bit(&self, i: u64) -> bool {
        self.0.get((i / 32) as usize).map_or(false, |x| x >> (i % 32) & 1 == 1)
    }
    pub fn set_bit(&self, i: u64, v: bool) -> Nat {
        let mut r = self.clone();
        let k = (i / 32) as usize;
        if k >= r.0.len() {
            r.0.resize(k + 1, 0);
        }
        if v {
            r.0[k] |= 1 << (i % 32);
        } else {
            r.0[k] &= !(1 << (i % 32));
        }
        r.trim()
    }
    pub fn cmp(&self, o: &Nat) -> std::cmp::Ordering {
        cmpv(&self.0, &o.0)
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.0.len().max(o.0.len()) + 1;
        let mut c = 0u64;
        Nat((0..n)
            .map(|i| {
                let t = self.0.get(i).copied().unwrap_or(0) as u64 + o.0.get(i).copied().unwrap_or(0) as u64 + c;
                c = t >> 32;
                t as u32
            })
            .collect())
        .trim()
    }
    pub fn sub(&self, o: &Nat) -> Nat {
        let mut c = 0i64;
        Nat((0..self.0.len())
            .map(|i| {
                let t = self.0[i] as i64 - o.0.get(i).copied().unwrap_or(0) as i64 + c;
                c = t >> 32;
                t as u32
            })
            .collect())
        .trim()
    }
    pub fn shl(&self, n: u64) -> Nat {
        if self.0.is_empty() {
            return self.clone();
        }
        let (w, b) = ((n / 32) as usize, n % 32);
        let mut v = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.0 {
            let t = ((x as u64) << b) | c;
            v.push(t as u32);
            c = t >> 32;
        }
        v.push(c as u32);
        Nat(v).trim()
    }
    pub fn shr(&self, n: u64) -> Nat {
        if n >= self.bits() {
            return Nat(vec![]);
        }
        let (w, b) = ((n / 32) as usize, n % 32);
        let v = &self.0[w..];
        Nat((0..v.len())
            .map(|i| (((v[i] as u64) | (v.get(i + 1).copied().unwrap_or(0) as u64) << 32) >> b) as u32)
            .collect())
        .trim()
    }
    /// remainder by schoolbook shift-and-subtract on limbs
    pub fn rem(&self, m: &Nat) -> Nat {
        let mut r = Nat(vec![]);
        if m.0.len() == 1 {
            let d = m.0[0] as u64;
            let mut x = 0u64;
            for &l in self.0.iter().rev() {
                x = ((x << 32) | l as u64) % d;
            }
            return Nat(vec![x as u32]).trim();
        }
        if self.cmp(m) == std::cmp::Ordering::Less {
            return self.clone();
        }
        // Knuth D
        let sh = m.0.last().unwrap().leading_zeros() as u64;
        let v = m.shl(sh).0;
        let mut u = self.shl(sh).0;
        u.push(0);
        let n = v.len();
        for j in (0..u.len() - n).rev() {
            let top = (u[j + n] as u64) << 32 | u[j + n - 1] as u64;
            let mut q = (top / v[n - 1] as u64).min(u32::MAX as u64);
            let mut rr = top as u128 - q as u128 * v[n - 1] as u128;
            while rr <= u32::MAX as u128 && q as u128 * v[n - 2] as u128 > (rr << 32 | u[j + n - 2] as u128) {
                q -= 1;
                rr += v[n - 1] as u128;
            }
            let (mut c, mut br) = (0u64, 0i64);
            for i in 0..n {
                let p = q * v[i] as u64 + c;
                c = p >> 32;
                let t = u[i + j] as i64 - (p as u32) as i64 + br;
                u[i + j] = t as u32;
                br = t >> 32;
            }
            let t = u[j + n] as i64 - c as i64 + br;
            u[j + n] = t as u32;
            if t < 0 {
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = u[j + n].wrapping_add(c as u32);
            }
        }
        r.0 = u;
        r.trim().shr(sh)
    }
    pub fn from_hex(h: &str) -> Nat {
        let h = if h.len() % 2 == 1 { format!("0{h}") } else { h.to_string() };
        Nat::from_be(&hex::decode(h).unwrap())
    }
    pub fn hex(&self) -> String {
        hex::encode(self.to_be())
    }
    pub fn pow_mod(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat(vec![1]).rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&b).rem(m);
            }
        }
        r
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        Nat(mulv(&self.0, &o.0)).trim()
    }
}
// ------------------------------------------------------------------ DER
/// flattened value as in module Der; None if not decodable. `open` is set where the specification
/// leaves acceptance open (more than 16 length bytes, nesting beyond 64)
pub fn der(b: &[u8], open: &mut bool) -> Option<Vec<i64>> {
    let mut out = vec![];
    let n = der_at(b, 0, &mut out, open)?;
    if n != b.len() {
        return None;
    }
    Some(out)
}
fn der_at(b: &[u8], depth: usize, out: &mut Vec<i64>, open: &mut bool) -> Option<usize> {
    if b.len() < 2 {
        return None;
    }
    let (mut len, mut p) = (b[1] as usize, 2usize);
    if b[1] >= 128 {
        let n = (b[1] - 128) as usize;
        if n == 0 || b.len() < 2 + n {
            return None;
        }
        if n > 16 {
            *open = true;
        }
        len = 0;
        for &x in &b[2..2 + n] {
            len = len.saturating_mul(256).saturating_add(x as usize);
        }
        p += n;
    }
    if len > b.len() - p {
        return None;
    }
    let c = &b[p..p + len];
    match b[0] {
        2 | 4 | 6 => {
            out.extend([b[0] as i64, len as i64]);
            out.extend(c.iter().map(|&x| x as i64));
        }
        3 if len > 0 => {
            out.extend([3, c[0] as i64, len as i64 - 1]);
            out.extend(c[1..].iter().map(|&x| x as i64));
        }
        5 if len == 0 => out.push(5),
        0x30 => {
            if depth > 60 {
                *open = true;
            }
            if depth > 2000 {
                return None;
            }
            out.push(48);
            let at = out.len();
            out.push(0);
            let mut q = 0;
            while q < c.len() {
                q += der_at(&c[q..], depth + 1, out, open)?;
                out[at] += 1;
            }
        }
        _ => return None,
    }
    Some(p + len)
}

// ------------------------------------------------------------------ PEM
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64_encode(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (c.get(1).copied().unwrap_or(0) as u32) << 8 | c.get(2).copied().unwrap_or(0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(B64[(v >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}
/// canonical padded base64: decodes and encodes back to the same text
pub fn b64_decode(t: &str) -> Option<Vec<u8>> {
    let mut o = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for c in t.bytes() {
        if c == b'=' {
            break;
        }
        let v = B64.iter().position(|&x| x == c)? as u32;
        acc = acc << 6 | v;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if b64_encode(&o) == t { Some(o) } else { None }
}
pub fn pem_parse(t: &str) -> Option<(String, Vec<u8>)> {
    let lines: Vec<&str> = t.split('\n').map(|l| l.trim_matches(char::is_whitespace)).collect();
    let marks: Vec<(usize, &str)> = lines
        .iter()
        .enumerate()
        .filter(|(_, l)| l.starts_with("-----BEGIN ") || l.starts_with("-----END "))
        .map(|(i, l)| (i, *l))
        .collect();
    if marks.len() != 2 {
        return None;
    }
    let a = marks[0].1.strip_prefix("-----BEGIN ")?.strip_suffix("-----")?;
    let b = marks[1].1.strip_prefix("-----END ")?.strip_suffix("-----")?;
    if a != b {
        return None;
    }
    let body: String = lines[marks[0].0 + 1..marks[1].0].concat();
    Some((a.to_string(), b64_decode(&body)?))
}
pub fn pem_write(label: &str, data: &[u8]) -> String {
    let b = b64_encode(data);
    let mut o = format!("-----BEGIN {label}-----\n");
    let mut rest = &b[..];
    loop {
        let n = rest.len().min(64);
        o += &rest[..n];
        o += "\n";
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
    }
    o + &format!("-----END {label}-----")
}

// ------------------------------------------------------------------ paddings
pub fn pkcs_unpad(b: &[u8]) -> Option<usize> {
    let p = *b.last()? as usize;
    if p == 0 || p > b.len() || !b[b.len() - p..].iter().all(|&x| x as usize == p) {
        return None;
    }
    Some(b.len() - p)
}
pub fn bit_unpad(b: &[u8]) -> Option<usize> {
    let mut n = b.len();
    while n > 0 && b[n - 1] == 0 {
        n -= 1;
    }
    if n > 0 && b[n - 1] == 0x80 { Some(n - 1) } else { None }
}

// ------------------------------------------------------------------ key files
pub enum File {
    Yes(Nat, Nat),
    No,
    Open(Nat, Nat),
}
/// end of the flattened value at i
fn skip(f: &[i64], i: usize) -> usize {
    match f[i] {
        2 | 4 | 6 => i + 2 + f[i + 1] as usize,
        3 => i + 3 + f[i + 2] as usize,
        48 => {
            let mut p = i + 2;
            for _ in 0..f[i + 1] {
                p = skip(f, p);
            }
            p
        }
        _ => i + 1,
    }
}
fn elements(f: &[i64]) -> Option<Vec<&[i64]>> {
    if f[0] != 48 {
        return None;
    }
    let (mut v, mut p) = (vec![], 2);
    for _ in 0..f[1] {
        let q = skip(f, p);
        v.push(&f[p..q]);
        p = q;
    }
    Some(v)
}
fn num(f: &[i64]) -> Nat {
    Nat::from_be(&f[2..].iter().map(|&x| x as u8).collect::<Vec<_>>())
}
fn key_file_opt(private: bool, b: &[u8]) -> Option<File> {
    let mut open = false;
    let f = der(b, &mut open)?;
    let el = elements(&f)?;
    let at = private as usize;
    if el.len() != 2 + at {
        return None;
    }
    if private {
        if el[0][0] != 2 || el[0][2..].iter().any(|&x| x != 0) {
            return None;
        }
        open |= el[0] != [2, 1, 0];
    }
    if el[at] != [48, 2, 6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 1, 5] {
        return None;
    }
    let s = el[at + 1];
    let inner = if private {
        if s[0] != 4 {
            return None;
        }
        &s[2..]
    } else {
        if s[0] != 3 || s[1] != 0 {
            return None;
        }
        &s[3..]
    };
    let inner: Vec<u8> = inner.iter().map(|&x| x as u8).collect();
    let f = der(&inner, &mut open)?;
    let el = elements(&f)?;
    if el.len() != if private { 9 } else { 2 } || el.iter().any(|x| x[0] != 2) {
        return None;
    }
    let from = if private { 1 } else { 0 };
    if private {
        open |= el[0] != [2, 1, 0];
    }
    open |= el[from..].iter().any(|x| x.len() < 3 || x[2] >= 128);
    let (n, x) = if private { (num(el[1]), num(el[3])) } else { (num(el[0]), num(el[1])) };
    Some(if open { File::Open(n, x) } else { File::Yes(n, x) })
}
pub fn key_file(private: bool, b: &[u8]) -> File {
    key_file_opt(private, b).unwrap_or(File::No)
}
