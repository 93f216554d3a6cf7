//! Enumerated sessions: the parts of the input space worth covering completely.
//! Level 0 is validated against the specification in every run, level 1 only in thorough runs (the mirror
//! judges it in every run), level 2 is always left to the mirror.
use crate::json::{self, J};
use crate::keys::KEYS;
use crate::make::{self, amt, b, blk, cps, e, n, s, Rng, TOY};
use crate::mirror::{self, Nat};

pub struct Sink<'a> {
    pub at: u64,
    pub seed: u64,
    pub stop: bool,
    /// is this index wanted at this level?
    pub want: &'a mut dyn FnMut(u64, u8) -> bool,
    /// takes a session; true to stop
    pub take: &'a mut dyn FnMut(u64, Vec<J>) -> bool,
}
impl Sink<'_> {
    fn add(&mut self, level: u8, f: impl FnOnce(&mut Rng) -> Vec<J>) {
        let i = self.at;
        self.at += 1;
        if self.stop || !(self.want)(i, level) {
            return;
        }
        let mut r = Rng::new(self.seed, i, "fixed");
        let v = f(&mut r);
        if !v.is_empty() && (self.take)(i, v) {
            self.stop = true;
        }
    }
}

pub fn all(prop: &str, k: &mut Sink) {
    match prop {
        "C01" | "C02" => bulk(k),
        "C03" => bad_ciphertexts(k),
        "C04" => pkcs(k),
        "C05" => bitpad(k),
        "C06" => aes(k),
        "C07" => rc2(k),
        "C08" => rc5(k),
        "C09" => rc4(k),
        "C10" => pieces(k),
        "C11" => lengths(k, &["md2"], 16),
        "C12" => lengths(k, &["md4", "md5"], 64),
        "C13" => lengths(k, &["sha1"], 64),
        "C14" => lengths(k, &["sha224", "sha256"], 64),
        "C15" => lengths(k, &["sha384", "sha512"], 128),
        "C16" => digests(k),
        "C17" => arithmetic(k),
        "C18" => queries(k),
        "C19" => pem_write(k),
        "C20" => pem_parse(k),
        "C21" => der_values(k),
        "C22" => der_any(k),
        "C23" => key_files(k),
        "C24" => pairs(k),
        "C25" => powers(k),
        "C26" => messages(k),
        "C27" => oaep_enc(k),
        "C28" => oaep_dec(k),
        "C29" => bad_messages(k),
        "C30" => histories(k),
        "C33" => values(k),
        "C31" => refusals(k),
        _ => (),
    }
}

// ------------------------------------------------------------------ bulk
const MODES: [&str; 3] = ["ecb", "cbc", "ctr"];
fn iv(r: &mut Rng, mode: &str, bl: usize) -> Vec<u8> {
    match mode {
        "cbc" => r.plain(bl),
        "ctr" => vec![r.byte()],
        _ => vec![],
    }
}
fn toy(key: u8, bl: usize) -> J {
    e("toy", vec![("key", b(&[key])), ("n", n(bl))])
}
fn trip(c: J, mode: &str, iv: &[u8], m: &[u8]) -> Vec<J> {
    let f = |dir: &str| vec![("obj", n(1)), ("dir", s(dir)), ("mode", s(mode)), ("iv", b(iv))];
    let (mut x, mut y) = (f("enc"), f("dec"));
    x.push(("data", b(m)));
    y.push(("refs", J::Arr(vec![n(2)])));
    vec![c, e("bulk", x), e("bulk", y)]
}
fn fill(r: &mut Rng, kind: usize, l: usize, bl: usize) -> Vec<u8> {
    match kind {
        0 => r.plain(l),
        1 => vec![bl as u8; l],
        2 => vec![0; l],
        3 => vec![1; l],
        // a last block that is a padding block for its own length
        4 => {
            let p = if l % bl == 0 { bl } else { bl - l % bl };
            let mut v = r.plain(l);
            let k = p.min(l);
            v[l - k..].fill(p as u8);
            v
        }
        _ => vec![0x80; l],
    }
}
fn bulk(k: &mut Sink) {
    for &bl in TOY {
        for mode in MODES {
            let mut ls = vec![0, 1, bl - 1, bl, bl + 1, 2 * bl - 1, 2 * bl, 2 * bl + 1, 3 * bl - 1, 3 * bl, 4 * bl, 7 * bl + bl / 2];
            ls.sort();
            ls.dedup();
            for l in ls {
                for kind in 0..6 {
                    let lv = if (bl <= 5 || bl == 16 || bl == 255) && (kind < 2 || kind == 4) && l <= 3 * bl { 0 } else { 1 };
                    k.add(lv, |r| trip(toy(r.byte(), bl), mode, &iv(r, mode, bl), &fill(r, kind, l, bl)));
                }
            }
        }
    }
    for cipher in 0..3 {
        for l in 0..70 {
            for mode in MODES {
                let bl = if cipher == 0 { 16 } else { 8 };
                let lv = if [0, 1, bl - 1, bl, bl + 1].contains(&l) && mode != "ctr" { 0 } else { 1 };
                k.add(lv, |r| {
                    let c = match cipher {
                        0 => e("aes", vec![("key", b(&r.plain(16 + 8 * (l % 3)))), ("words", n(l % 2))]),
                        1 => e("rc2", vec![("key", b(&r.plain(1 + l))), ("bits", n(1 + 14 * l))]),
                        _ => e("rc5", vec![("key", b(&r.plain(l))), ("rounds", n(l % 21))]),
                    };
                    trip(c, mode, &iv(r, mode, bl), &fill(r, 0, l, bl))
                });
            }
        }
    }
    // many blocks
    for (bl, l) in [(1, 255), (1, 256), (1, 257), (1, 65535), (1, 65536), (2, 511), (2, 512), (2, 131071), (3, 767), (3, 768), (7, 1792), (8, 65535), (16, 4095), (16, 4096), (16, 65535), (16, 65536), (16, 65537), (16, 300000), (255, 65280), (255, 65535), (255, 65536), (255, 130050), (1, 270_000), (1, 1_050_000)] {
        for mode in MODES {
            k.add(if l < 300 { 1 } else { 2 }, |r| trip(toy(r.byte(), bl), mode, &iv(r, mode, bl), &fill(r, 0, l, bl)));
        }
    }
    for l in [65535, 65536, 100000] {
        k.add(2, |r| trip(e("aes", vec![("key", b(&r.plain(16))), ("words", n(0))]), "cbc", &r.plain(16), &fill(r, 0, l, 16)));
    }
}
/// encryption with the toy cipher, without padding
fn craft(key: u8, bl: usize, mode: &str, iv: &[u8], p: &[u8]) -> Vec<u8> {
    let mut st = iv.to_vec();
    let mut o = vec![];
    for c in p.chunks(bl) {
        let x: Vec<u8> = match mode {
            "cbc" => (0..bl).map(|i| c[i] ^ st[i]).collect(),
            "ctr" => (0..bl).map(|i| c[i] ^ st[0].wrapping_add((i + 1) as u8)).collect(),
            _ => c.to_vec(),
        };
        let y: Vec<u8> = (0..bl).map(|i| x[(i + 1) % bl].wrapping_add(key).wrapping_add((7 * (i + 1)) as u8)).collect();
        match mode {
            "cbc" => st = y.clone(),
            "ctr" => st[0] = st[0].wrapping_add(1),
            _ => (),
        }
        o.extend(y);
    }
    o
}
fn dec(r: &mut Rng, bl: usize, mode: &str, p: &[u8]) -> Vec<J> {
    let (key, v) = (r.byte(), iv(r, mode, bl));
    let c = craft(key, bl, mode, &v, p);
    vec![toy(key, bl), e("bulk", vec![("obj", n(1)), ("dir", s("dec")), ("mode", s(mode)), ("iv", b(&v)), ("data", b(&c))])]
}
fn bad_ciphertexts(k: &mut Sink) {
    // every length
    for &bl in TOY {
        for l in 0..=3 * bl + 1 {
            if bl > 33 && l % bl > 2 && l % bl < bl - 2 && l % 7 != 0 {
                continue;
            }
            for mode in MODES {
                let lv = if (bl <= 5 || bl == 8 || bl == 16) && mode != "cbc" { 0 } else { 1 };
                k.add(lv, |r| {
                    let v = iv(r, mode, bl);
                    let d = r.plain(l);
                    vec![toy(r.byte(), bl), e("bulk", vec![("obj", n(1)), ("dir", s("dec")), ("mode", s(mode)), ("iv", b(&v)), ("data", b(&d))])]
                });
            }
        }
    }
    // every pad value, with every damage inside the pad
    for &bl in TOY {
        for p in 0..256usize {
            if bl > 33 && p > 5 && !(bl - 2..=bl + 2).contains(&p) && p % 16 > 1 {
                continue;
            }
            let pl = p.min(bl).max(1);
            // 0: no damage, j: j-th byte from the end
            for j in 0..=(pl + 1).min(bl) {
                if bl > 33 && j > 3 && j + 3 < pl && j % 8 != 0 {
                    continue;
                }
                let edge = [0, 1, 2, bl - 1, bl, bl + 1, 127, 128, 129, 254, 255].contains(&p);
                let lv = if [1, 2, 3, 4, 8, 16].contains(&bl) && edge && (bl < 16 || j < 3 || j + 2 > pl) { 0 } else { 1 };
                let mode = MODES[(p + j) % 3];
                k.add(lv, |r| {
                    let blocks = 1 + r.b(3);
                    let mut d = r.plain(blocks * bl);
                    let l = d.len();
                    d[l - pl..].fill(p as u8);
                    if j > 0 {
                        d[l - j] ^= r.pick(&[1, 2, 0x80, 0xff]);
                    }
                    dec(r, bl, mode, &d)
                });
            }
        }
    }
    for x in 0..65536usize {
        k.add(if x < 512 && x % 4 == 0 { 0 } else { 1 }, |r| dec(r, 2, "ecb", &[(x >> 8) as u8, x as u8]));
    }
    for x in 0..256usize {
        k.add(0, |r| dec(r, 1, MODES[x % 3], &[9, x as u8]));
    }
    // the last block of a long text
    for (bl, blocks) in [(1, 256), (1, 300), (1, 65536), (16, 4096), (255, 257)] {
        for p in [0, 1, bl, bl + 1] {
            k.add(2, |r| {
                let mut d = r.plain(bl * blocks);
                let l = d.len();
                d[l - bl..].fill(p as u8);
                d[l - 1] = p as u8;
                dec(r, bl, "cbc", &d)
            });
        }
    }
}
fn pad_ev(kind: &str, bl: usize, d: &[u8]) -> J {
    e("pad", vec![("pad", s(kind)), ("n", n(bl)), ("data", b(d))])
}
fn unpad_ev(kind: &str, bl: usize, d: &[u8]) -> J {
    e("unpad", vec![("pad", s(kind)), ("n", n(bl)), ("data", b(d))])
}
fn unpad_ref(kind: &str, bl: usize, at: usize) -> J {
    e("unpad", vec![("pad", s(kind)), ("n", n(bl)), ("refs", J::Arr(vec![n(at)]))])
}
fn pad_all(k: &mut Sink, kind: &'static str, sizes: &[usize]) {
    for &bl in sizes {
        for l in 0..bl + 4 {
            let edge = l < 2 || l == bl / 2 || l + 2 >= bl;
            k.add(if edge { 0 } else { 1 }, |r| {
                let mut v = vec![];
                for c in 0..4 {
                    let mut d = r.plain(l);
                    if c == 1 {
                        // looks padded already
                        let p = if kind == "pkcs" { bl.saturating_sub(l) as u8 } else { 0 };
                        let q = if kind == "pkcs" { bl.saturating_sub(l).min(l) } else { l };
                        d[l - q..].fill(p);
                        if kind == "bit" && l > 0 {
                            d[l - q] = 0x80;
                        }
                    }
                    if c == 2 {
                        d.fill(if kind == "pkcs" { bl as u8 } else { 0x80 });
                    }
                    if c == 3 {
                        d.fill(0);
                    }
                    v.push(pad_ev(kind, bl, &d));
                    if l < bl {
                        v.push(unpad_ref(kind, bl, v.len()));
                    }
                    if edge && c == 1 {
                        break;
                    }
                }
                v
            });
        }
        for l in [2 * bl, 2 * bl + 1, 256, 257, 256 + bl - 1, 65536, 65536 + bl - 1] {
            if l >= bl {
                k.add(if l < 600 { 0 } else { 2 }, |r| vec![pad_ev(kind, bl, &r.plain(l))]);
            }
        }
    }
}
fn pkcs(k: &mut Sink) {
    let sizes: Vec<usize> = (1..=255).collect();
    pad_all(k, "pkcs", &sizes);
    for &bl in &sizes {
        for p in 0..256usize {
            let lv = if [1, 2, 3, 4, 8, 16, 17, 64, 128, 254, 255].contains(&bl) && (p < 3 || p % 32 == 31 || p % 32 == 0 || (bl - 1..=bl + 1).contains(&p)) { 0 } else { 1 };
            k.add(lv, |r| {
                let pl = p.min(bl).max(1);
                let mut v = vec![];
                let base = r.plain(bl);
                for j in [0, pl, 2, pl / 2 + 1, pl + 1] {
                    let mut d = base.clone();
                    d[bl - pl..].fill(p as u8);
                    if j > 0 && j <= bl {
                        d[bl - j] ^= r.pick(&[1, 2, 0x40, 0x80, 0xff]);
                    }
                    v.push(unpad_ev("pkcs", bl, &d));
                }
                v
            });
        }
    }
    for bl in 2..=40 {
        for p in 2..=bl {
            k.add(1, |r| {
                (1..=p).map(|j| {
                    let mut d = r.plain(bl);
                    d[bl - p..].fill(p as u8);
                    d[bl - j] ^= 1 << r.b(8);
                    unpad_ev("pkcs", bl, &d)
                }).collect()
            });
        }
    }
    for x in 0..256usize {
        k.add(0, |_| vec![unpad_ev("pkcs", 1, &[x as u8])]);
        k.add(1, |_| (0..256).map(|y| unpad_ev("pkcs", 2, &[y as u8, x as u8])).collect());
    }
}
fn bitpad(k: &mut Sink) {
    let mut sizes: Vec<usize> = (1..=255).collect();
    sizes.extend(make::BITPADS);
    pad_all(k, "bit", &sizes);
    for &bl in &sizes {
        for at in 0..bl {
            let lv = if (at < 2 || at + 2 >= bl) && (bl < 9 || bl % 16 < 2 || bl > 253) { 0 } else { 1 };
            if bl > 256 && at % 16 > 1 && at + 3 < bl {
                continue;
            }
            k.add(lv, |r| {
                let mut v = vec![];
                let base = r.plain(bl);
                let mut put = |x: u8, junk: Option<(usize, u8)>, zero: bool| {
                    let mut d = base.clone();
                    if zero {
                        d[..at].fill(0);
                    }
                    d[at] = x;
                    d[at + 1..].fill(0);
                    if let Some((j, y)) = junk {
                        if j < bl {
                            d[j] = y;
                        }
                    }
                    v.push(unpad_ev("bit", bl, &d));
                };
                put(0x80, None, false);
                put(0x80, None, true);
                put(0x81, None, false);
                put(0x40, None, false);
                put(0x80, Some((at + 1, 1)), false);
                put(0x80, Some((bl - 1, 0x80)), false);
                put(0x80, Some((at + (bl - at) / 2, 0x7f)), false);
                if at == 0 {
                    put(0, None, false);
                }
                v
            });
        }
    }
    for x in 0..256usize {
        k.add(0, |_| vec![unpad_ev("bit", 1, &[x as u8]), unpad_ev("bit", 2, &[x as u8, 0]), unpad_ev("bit", 3, &[0x80, x as u8, 0])]);
        k.add(1, |_| (0..256).map(|y| unpad_ev("bit", 2, &[y as u8, x as u8])).collect());
    }
}

// ------------------------------------------------------------------ ciphers
fn both(c: J, d: &[u8]) -> Vec<J> {
    vec![c, blk(1, "enc", d), blk(1, "dec", d)]
}
fn aes(k: &mut Sink) {
    for (z, kl) in [16, 24, 32].into_iter().enumerate() {
        let key = |words: usize, d: &[u8]| e("aes", vec![("key", b(d)), ("words", n(words))]);
        for x in 0..256usize {
            let w = x / 3 % 2;
            k.add(if x % 3 == z || x % 64 == 63 { 0 } else { 1 }, |r| both(key(w, &r.plain(kl)), &[x as u8; 16]));
            k.add(if x % 8 == z { 0 } else { 1 }, |r| both(key(w, &vec![x as u8; kl]), &r.plain(16)));
        }
        for x in 0..8 * kl {
            let mut d = vec![0; kl];
            d[x / 8] = 0x80 >> (x % 8);
            k.add(if x % 32 == z { 0 } else { 1 }, |_| both(key(x % 2, &d), &[0; 16]));
            let y: Vec<u8> = d.iter().map(|v| !v).collect();
            k.add(1, |_| both(key(x % 2, &y), &[0; 16]));
        }
        for x in 0..128 {
            let mut d = [0; 16];
            d[x / 8] = 0x80 >> (x % 8);
            k.add(1, |r| both(key(x % 2, &r.plain(kl)), &d));
        }
        // every byte value at every place
        for x in 0..4096 {
            k.add(1, |r| {
                let mut d = r.plain(16);
                d[x / 256] = x as u8;
                let mut kk = r.plain(kl);
                kk[x / 256 * kl / 16] = x as u8;
                both(key(x % 2, &kk), &d)
            });
        }
    }
}
fn rc2(k: &mut Sink) {
    for bits in 1..=1024usize {
        for l in 1..=128usize {
            let lv = if l == 1 + (bits * 37) % 128 && bits % 4 == 0 || l == bits.div_ceil(8) && bits % 8 == 0 && l % 4 == 1 { 0 } else { 1 };
            k.add(lv, |r| {
                let c = e("rc2", vec![("key", b(&r.plain(l))), ("bits", n(bits))]);
                let mut v = both(c, &r.plain(8));
                if lv == 0 {
                    v.pop();
                }
                v
            });
        }
    }
    for x in 0..256usize {
        k.add(if x % 16 == 0 { 0 } else { 1 }, |r| both(e("rc2", vec![("key", b(&vec![x as u8; 1 + x % 128])), ("bits", n(1 + 4 * x))]), &r.plain(8)));
        k.add(1, |r| both(e("rc2", vec![("key", b(&r.plain(8))), ("bits", n(64))]), &[x as u8; 8]));
    }
    for x in 0..64 {
        let mut d = [0; 8];
        d[x / 8] = 0x80 >> (x % 8);
        k.add(1, |r| both(e("rc2", vec![("key", b(&r.plain(16))), ("bits", n(128))]), &d));
        k.add(1, |r| both(e("rc2", vec![("key", b(&d)), ("bits", n(63))]), &r.plain(8)));
    }
}
fn rc5(k: &mut Sink) {
    for rounds in 0..=255usize {
        for l in 0..=255usize {
            let lv = if l == (rounds * 5 + 3) % 19 && rounds % 8 < 2 || rounds == l % 5 && (l < 40 || l > 250 || l % 9 == 0) { 0 } else { 1 };
            k.add(lv, |r| {
                let c = e("rc5", vec![("key", b(&r.plain(l))), ("rounds", n(rounds))]);
                let mut v = both(c, &r.plain(8));
                if lv == 0 && l % 2 == 0 {
                    v.remove(1);
                }
                v
            });
        }
    }
    // rotation amounts 0..31 in each half: words with chosen low bits
    for x in 0..1024usize {
        k.add(1, |r| {
            let mut d = r.plain(8);
            d[0] = d[0] & 0xe0 | (x % 32) as u8;
            d[4] = d[4] & 0xe0 | (x / 32) as u8;
            both(e("rc5", vec![("key", b(&vec![0; x % 4])), ("rounds", n(1 + x % 3))]), &d)
        });
    }
}
fn rc4(k: &mut Sink) {
    let mut ls: Vec<usize> = (1..=300).collect();
    ls.extend([511, 512, 513, 1000, 1024, 5000, 65536, 65537]);
    for l in ls {
        for kind in 0..4 {
            let lv = if kind == 0 && (l < 24 || l % 16 < 2 || (250..262).contains(&l)) { 0 } else if l > 5000 { 2 } else { 1 };
            k.add(lv, |r| {
                let key = match kind {
                    0 => r.plain(l),
                    1 => vec![l as u8; l],
                    2 => {
                        let mut v = vec![0; l];
                        v[l - 1] = 1;
                        v
                    }
                    _ => r.bytes(l),
                };
                let kb = ("key", b(&key));
                let d = r.plain(if lv == 0 { 30 } else { 600 });
                vec![
                    e("rc4", vec![kb.clone()]),
                    e("keys", vec![("obj", n(1)), ("n", n(if lv == 0 { 20 } else { 1100 }))]),
                    e("rc4enc", vec![kb.clone(), ("data", b(&d))]),
                    e("rc4dec", vec![kb, ("data", b(&d))]),
                ]
            });
        }
    }
    // data lengths
    for l in 0..=520 {
        k.add(if l % 40 < 2 { 0 } else { 1 }, |r| {
            let key = b(&r.plain(5));
            vec![e("rc4enc", vec![("key", key.clone()), ("data", b(&r.plain(l)))]), e("rc4dec", vec![("key", key), ("data", b(&r.plain(l)))])]
        });
    }
    // positions passed over
    for g in 0..=300usize {
        for how in 0..3 {
            k.add(if g % 50 < 2 && how == g % 3 || g < 6 { 0 } else { 1 }, |r| {
                vec![
                    e("rc4", vec![("key", b(&r.plain(1 + g % 9)))]),
                    e("keypicks", vec![("obj", n(1)), ("gaps", json::ints(&[g as i64, 0, g as i64 / 2, 1])), ("how", n(how))]),
                    e("keys", vec![("obj", n(1)), ("n", n(8))]),
                    e("keypicks", vec![("obj", n(1)), ("gaps", json::ints(&[g as i64])), ("how", n((how + 1) % 3))]),
                    e("piece", vec![("obj", n(1)), ("data", b(&r.plain(5))), ("n", n(5)), ("how", n(how))]),
                ]
            });
        }
    }
    for l in [65535, 65536, 65537, 200000] {
        k.add(2, |r| vec![e("rc4enc", vec![("key", b(&r.plain(7))), ("data", b(&r.plain(l)))])]);
        k.add(2, |r| vec![e("rc4", vec![("key", b(&r.plain(7)))]), e("skip", vec![("obj", n(1)), ("n", n(l - 3))]), e("keys", vec![("obj", n(1)), ("n", n(600))])]);
    }
}
fn pieces(k: &mut Sink) {
    // every history of up to four calls on pieces of up to two bytes, each consumed up to some point
    let calls: Vec<(usize, usize)> = vec![(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)];
    for len in 1..=4u32 {
        for code in 0..6usize.pow(len) {
            for src in 0..3usize {
                for how in 0..4usize {
                    let lv = if how == code % 4 && src == code / 6 % 3 && (len < 4 || code % 3 == 0) { 0 } else { 1 };
                    k.add(lv, |r| {
                        let seq: Vec<(usize, usize)> = (0..len).map(|i| calls[code / 6usize.pow(i) % 6]).collect();
                        let total: usize = seq.iter().map(|c| c.1).sum();
                        let mut v = vec![match src {
                            0 => e("fin", vec![("key", b(&r.plain(total))), ("via", n(code % 3))]),
                            1 => e("pat", vec![("key", b(&[r.byte()]))]),
                            _ => e("rc4", vec![("key", b(&r.plain(3)))]),
                        }];
                        for (i, (l, t)) in seq.iter().enumerate() {
                            v.push(e("piece", vec![("obj", n(1)), ("data", b(&r.plain(*l))), ("n", n(*t)), ("how", n(if how == 0 { 0 } else { (how + i) % 4 })), ("via", n((code + i) % 4))]));
                        }
                        v
                    });
                }
            }
        }
    }
    // results passed over: every pair of gaps within a short piece, or just past its end
    for l in 0..=6usize {
        for a in 0..=l {
            for c in 0..=l + 1 {
                for how in 0..8usize {
                    for src in 0..3usize {
                        let lv = if how == (l + 2 * a + 3 * c) % 8 && src == (a + c) % 3 || l == 3 && src == 0 && a < 2 && c < 2 { 0 } else { 1 };
                        k.add(lv, |r| {
                            let gaps: Vec<i64> = if c > l { vec![a as i64] } else { vec![a as i64, c as i64] };
                            let used = (a + 1 + if c > l { 0 } else { c + 1 }).min(l);
                            vec![
                                match src {
                                    0 => e("fin", vec![("key", b(&r.plain(2 + used + 2))), ("via", n(how % 3))]),
                                    1 => e("pat", vec![("key", b(&[r.byte()]))]),
                                    _ => e("rc4", vec![("key", b(&r.plain(3)))]),
                                },
                                e("piece", vec![("obj", n(1)), ("data", b(&r.plain(2))), ("n", n(2)), ("how", n(how % 4))]),
                                e("picks", vec![("obj", n(1)), ("data", b(&r.plain(l))), ("gaps", json::ints(&gaps)), ("how", n(how)), ("via", n((a + c) % 2))]),
                                e("piece", vec![("obj", n(1)), ("data", b(&r.plain(2))), ("n", n(2)), ("how", n((how + 1) % 4))]),
                            ]
                        });
                    }
                }
            }
        }
    }
    // passing over more than is left of the keystream
    for have in 0..6usize {
        for l in 0..=8usize {
            for g in 0..=8i64 {
                for how in 0..8 {
                    k.add(if how == (have + l + g as usize) % 8 { 0 } else { 1 }, |r| {
                        vec![
                            e("fin", vec![("key", b(&r.plain(have))), ("via", n(how % 3))]),
                            e("picks", vec![("obj", n(1)), ("data", b(&r.plain(l))), ("gaps", json::ints(&[g])), ("how", n(how))]),
                        ]
                    });
                }
            }
        }
    }
    for l in [30, 64, 65, 128, 129, 256, 257, 300, 1024, 1025, 4097, 65537] {
        for x in 0..10 {
            k.add(if l < 140 && x < 4 { 0 } else if l > 5000 { 2 } else { 1 }, |r| {
                let g = make::gaps(r, l);
                vec![
                    if x % 2 == 0 { e("pat", vec![("key", b(&[r.byte()]))]) } else { e("rc4", vec![("key", b(&r.plain(4)))]) },
                    e("picks", vec![("obj", n(1)), ("data", b(&r.plain(l))), ("gaps", json::ints(&g)), ("how", n(r.b(8)))]),
                    e("piece", vec![("obj", n(1)), ("data", b(&r.plain(9))), ("n", n(9)), ("how", n(0))]),
                ]
            });
        }
    }
    // running out: keystream of a bytes, pieces
    for have in 0..12usize {
        for first in 0..=have {
            for second in 0..14usize {
                for how in 0..4 {
                    k.add(if have < 5 && how == (first + second) % 4 { 0 } else { 1 }, |r| {
                        vec![
                            e("fin", vec![("key", b(&r.plain(have))), ("via", n(how % 3))]),
                            e("piece", vec![("obj", n(1)), ("data", b(&r.plain(first))), ("n", n(first)), ("how", n((how + 1) % 4))]),
                            e("piece", vec![("obj", n(1)), ("data", b(&r.plain(second))), ("n", n(second)), ("how", n(how))]),
                        ]
                    });
                }
            }
        }
    }
    // piece sizes around likely buffer sizes, twice, then a check of the position
    for l in [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537] {
        for src in 0..3 {
            for cut in [0, 1, l / 2, l - 1, l] {
                k.add(if l < 300 && src == 1 { 0 } else if l > 5000 { 2 } else { 1 }, |r| {
                    let mut v = vec![match src {
                        0 => e("fin", vec![("key", b(&r.plain(l + cut + 5))), ("via", n(l % 3))]),
                        1 => e("pat", vec![("key", b(&[r.byte()]))]),
                        _ => e("rc4", vec![("key", b(&r.plain(3)))]),
                    }];
                    for (x, t) in [(l, cut), (l, l), (5, 5)] {
                        v.push(e("piece", vec![("obj", n(1)), ("data", b(&r.plain(x))), ("n", n(t)), ("how", n(r.b(4))), ("via", n(r.b(4)))]));
                    }
                    v
                });
            }
        }
    }
    // many pieces on one object
    for count in [40, 255, 256, 257, 300, 1000, 1025, 4097, 65537usize] {
        for src in 0..3 {
            for size in [0, 1, 2] {
                let lv = if count == 40 && size > 0 { 0 } else if count > 300 { 2 } else { 1 };
                if count > 5000 && size != 1 {
                    continue;
                }
                k.add(lv, |r| {
                    let mut v = vec![match src {
                        0 => e("fin", vec![("key", b(&r.plain(count * size + 9))), ("via", n(count % 3))]),
                        1 => e("pat", vec![("key", b(&r.plain(7)))]),
                        _ => e("rc4", vec![("key", b(&r.plain(3)))]),
                    }];
                    for i in 0..count {
                        v.push(e("piece", vec![("obj", n(1)), ("data", b(&r.plain(size))), ("n", n(size)), ("how", n(i % 4)), ("via", n(i % 4))]));
                    }
                    v.push(e("piece", vec![("obj", n(1)), ("data", b(&r.plain(9))), ("n", n(9)), ("how", n(0))]));
                    v
                });
            }
        }
    }
}

// ------------------------------------------------------------------ digests
fn lengths(k: &mut Sink, algs: &[&'static str], bl: usize) {
    for l in 0..=4200 {
        for (z, &a) in algs.iter().enumerate() {
            for kind in 0..4 {
                let near = l % bl == 0 || l % bl == bl - 1 || l % bl == 1 || (l + bl / 8) % bl < 2 || (l + bl / 8 + 1) % bl == 0;
                let lv = if l <= 3 * bl + 2 && (kind == 0 && (algs.len() == 1 || near || l % 2 == z) || kind == 1 && near) { 0 } else { 1 };
                if l > 1200 && kind > 0 && l % 16 != 0 {
                    continue;
                }
                k.add(lv, |r| {
                    let d = match kind {
                        0 => r.plain(l),
                        1 => vec![0; l],
                        2 => vec![0xff; l],
                        _ => r.bytes(l),
                    };
                    vec![e("hash", vec![("alg", s(a)), ("data", b(&d)), ("via", n((l + kind) % 7))])]
                });
            }
        }
    }
    for &a in algs {
        for via in 0..7 {
            for l in [0, 1, bl - 1, bl, bl + 1, bl - bl / 8 - 1, bl - bl / 8, 2 * bl, 4 * bl + 3] {
                k.add(if l < 2 || l == bl { 0 } else { 1 }, |r| vec![e("hash", vec![("alg", s(a)), ("data", b(&r.plain(l))), ("via", n(via))])]);
            }
        }
        // all byte values
        for x in 0..256usize {
            k.add(if x % 16 == 0 { 0 } else { 1 }, |_| vec![e("hash", vec![("alg", s(a)), ("data", b(&[x as u8])), ("via", n(x % 7))])]);
            k.add(1, |_| vec![e("hash", vec![("alg", s(a)), ("data", b(&vec![x as u8; 2 * bl + 5])), ("via", n(x % 7))])]);
        }
        for l in [8191, 8192, 8193, 65535, 65536, 65537, 300000] {
            k.add(2, |r| vec![e("hash", vec![("alg", s(a)), ("data", b(&r.plain(l))), ("via", n(l % 7))])]);
        }
        for l in [(1 << 20) - 1, 1 << 20, (1 << 21) + 7] {
            k.add(2, |r| vec![e("hash", vec![("alg", s(a)), ("data", b(&r.plain(l))), ("via", n(0))])]);
        }
    }
}
fn digests(k: &mut Sink) {
    for (bits, alg) in [(160usize, "sha1"), (224, "sha224"), (256, "sha256"), (384, "sha384"), (512, "sha512")] {
        let w = if bits > 256 { 8 } else { 4 };
        let bl = bits / 8;
        let digits = bits / 4;
        let hx = |t: &str, via: usize| e("from_hex", vec![("bits", n(bits)), ("text", cps(t)), ("via", n(via))]);
        let words = |d: &[u8]| e("from_words", vec![("bits", n(bits)), ("words", J::Arr(d.chunks(w).map(b).collect()))]);
        let tb = |o: usize| e("to_bytes", vec![("obj", n(o)), ("bits", n(bits))]);
        let tw = |o: usize| e("to_words", vec![("obj", n(o)), ("bits", n(bits))]);
        let eq = |i: usize, j: usize| e("equal", vec![("obj", n(i)), ("other", n(j))]);
        let hex = |d: &[u8]| -> String { d.iter().map(|x| format!("{x:02x}")).collect() };
        // single bits: all conversions, and comparison with a value without that bit
        for x in 0..bits {
            for c in 0..3 {
                k.add(if c == 0 && x % 5 == 0 || x % 64 == 63 { 0 } else { 1 }, |r| {
                    let mut d = match c {
                        0 => vec![0; bl],
                        1 => vec![0xff; bl],
                        _ => r.plain(bl),
                    };
                    let t = d.clone();
                    d[x / 8] ^= 0x80 >> (x % 8);
                    vec![words(&d), tb(1), tw(1), hx(&hex(&d), x % 2), tb(2), tw(2), eq(1, 2), hx(&hex(&t), 0), eq(1, 3), eq(3, 2), words(&t), eq(3, 4)]
                });
            }
        }
        for l in [0, 1, 55, 64] {
            k.add(0, |r| vec![e("from_hash", vec![("alg", s(alg)), ("data", b(&r.plain(l)))]), tb(1), tw(1)]);
        }
        // every text length
        for l in 0..=2 * digits + 4 {
            k.add(if l + 6 > digits && l < digits + 6 || l % 16 == 0 { 0 } else { 1 }, |r| {
                let d = hex(&r.plain(digits + 2));
                vec![hx(&d[..l], 0), tb(1)]
            });
            k.add(1, |r| vec![hx(&hex(&r.plain(digits + 2)).to_uppercase()[..l], 1), tb(1)]);
        }
        // every ASCII character and some others, at every place
        let mut cs: Vec<char> = (0..=255u8).map(|c| c as char).collect();
        cs.extend(['\u{660}', '\u{966}', '０', 'Ａ', 'ａ', '𝟘', '\u{2028}', '\u{200b}', '\u{feff}', '\u{fffd}']);
        for at in 0..digits {
            let lv = at < 2 || at == digits - 1 || at == digits / 2;
            k.add(1, |r| {
                let d: Vec<char> = hex(&r.plain(bl)).chars().collect();
                cs.iter().map(|&c| {
                    let mut t = d.clone();
                    t[at] = c;
                    hx(&t.iter().collect::<String>(), r.b(2))
                }).collect()
            });
            if lv && at < 2 {
                for &c in &cs {
                    k.add(if (c as u32) < 128 && bits % 224 == 0 || c.is_ascii_hexdigit() { 0 } else { 1 }, |r| {
                        let mut t: Vec<char> = hex(&r.plain(bl)).chars().collect();
                        t[at] = c;
                        vec![hx(&t.iter().collect::<String>(), at % 2), tb(1)]
                    });
                }
            }
        }
        // decorations: in addition to the digits, and in place of some of them
        let deco = ["0x", "0X", "x", "#", "+", "-", " ", "\t", "\n", "\r\n", "\u{feff}", "\u{a0}", "0", "00", "\\x", "h", "'", "\"", ":", "_", "é", "０", "\0", "0b", "0o", "%", "=", "sha:", "\u{3000}"];
        for t in deco {
            k.add(0, |r| vec![hx(&format!("{t}{}", hex(&r.plain(bl))), 0), tb(1)]);
            k.add(0, |r| vec![hx(&format!("{}{t}", hex(&r.plain(bl))), 1), tb(1)]);
            k.add(1, |r| vec![hx(&format!("{t}{}{t}", hex(&r.plain(bl))), 0), tb(1)]);
            // the same length in characters, and the same length in bytes
            for (z, tl) in [t.chars().count(), t.len()].into_iter().enumerate() {
                k.add(z as u8, |r| vec![hx(&format!("{t}{}", &hex(&r.plain(bl))[tl..]), 0), tb(1)]);
                k.add(z as u8, |r| vec![hx(&format!("{}{t}", &hex(&r.plain(bl))[tl..]), 1), tb(1)]);
            }
            k.add(0, |r| {
                let d = hex(&r.plain(bl));
                vec![hx(&format!("{}{t}{}", &d[..2], &d[2..]), 0), hx(&format!("{}{t}{}", &d[..digits / 2], &d[digits / 2..]), 1), tb(1)]
            });
        }
        // separators between all byte pairs
        for t in [":", " ", "-", "_", ","] {
            k.add(1, |r| vec![hx(&r.plain(bl).iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(t), 0)]);
        }
        // zero digests and case
        for t in ["0", "f", "F", "aB", "Ab", "9", "a", "A"] {
            k.add(0, |_| vec![hx(&t.repeat(digits / t.len()), 0), tb(1), tw(1)]);
        }
        // other sizes' texts
        for o in [128, 160, 224, 256, 384, 512, 1024] {
            k.add(0, |r| vec![hx(&hex(&r.plain(o / 8)), 0), tb(1)]);
        }
    }
}

// ------------------------------------------------------------------ numbers
fn pow2(k: u64) -> Nat {
    Nat(vec![1]).shl(k)
}
fn specials(small: bool) -> Vec<Nat> {
    let one = Nat(vec![1]);
    let mut v = vec![Nat(vec![])];
    let ks: &[u64] = if small { &[1, 2, 7, 8, 9, 15, 16, 17, 24, 32, 64, 127, 128, 129] } else { &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 40, 48, 56, 63, 64, 65, 72, 96, 120, 127, 128, 129, 136, 192, 255, 256, 257, 300] };
    for &k in ks {
        v.push(pow2(k).sub(&one));
        v.push(pow2(k));
        v.push(pow2(k).add(&one));
    }
    for h in ["aa", "5555", "ff00ff", "100000001", "ff00", "ff0000", "1ff", "fe", "ffff0000ffff0000", "123456789abcdef0", "8000000000000001", "fffffffffffffffffffffffffffffffe", "100000000000000000000000000000000ff"] {
        v.push(Nat::from_hex(h));
    }
    v.sort_by(|a, b| a.cmp(b));
    v.dedup_by(|a, b| a.cmp(b) == std::cmp::Ordering::Equal);
    v
}
fn be(x: &Nat) -> J {
    e("be", vec![("data", b(&x.to_be()))])
}
fn on(op: &str, i: usize, j: usize) -> J {
    e(op, vec![("obj", n(i)), ("other", n(j))])
}
fn by(op: &str, i: usize, x: u64) -> J {
    e(op, vec![("obj", n(i)), ("n", amt(x))])
}
fn q(op: &str, i: usize) -> J {
    e(op, vec![("obj", n(i))])
}
const LONG: &[usize] = &[255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 12000, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 131073];
/// a number of l bytes
fn long(r: &mut Rng, l: usize, kind: usize) -> Vec<u8> {
    let mut d = match kind {
        0 => r.plain(l),
        1 => vec![255; l],
        _ => vec![0; l],
    };
    d[0] = if kind == 1 { 255 } else { r.r(1, 255) as u8 };
    d
}
fn arithmetic(k: &mut Sink) {
    // long numbers
    for (z, l) in LONG.iter().enumerate() {
        for kind in 0..3 {
            for other in 0..4 {
                let lv = if *l < 1000 && other == (z + kind) % 4 || [4097, 8193].contains(l) && kind == 1 && other == 2 { 0 } else if *l < 5000 { 1 } else { 2 };
                k.add(lv, |r| {
                    let x = long(r, *l, kind);
                    let y = match other {
                        0 => vec![1],
                        1 => long(r, l / 2, 1),
                        2 => {
                            let mut y = x.clone();
                            y[0] = y[0].max(2) - 1;
                            y
                        }
                        _ => {
                            let mut y = x.clone();
                            let at = r.b(*l);
                            y[at] = y[at].saturating_sub(1);
                            y[0] = y[0].max(1);
                            y
                        }
                    };
                    let mut v = vec![e("be", vec![("data", b(&x))]), e("be", vec![("data", b(&y))])];
                    v.extend([on("diff", 1, 2), by("addb", 1, 255), on("add", 1, 2), by("shl", 1, 11), by("shr", 1, 9), on("sub", 1, 2)]);
                    if other > 1 {
                        v.extend([on("add", 1, 2), on("rem", 1, 2)]);
                    }
                    v.extend([by("shl", 2, 8 * (*l as u64) - 3), by("shr", 2, 4 * (*l as u64) + 1)]);
                    v
                });
            }
        }
    }
    let small = specials(true);
    let large = specials(false);
    for (lv, set) in [(0u8, &small), (1, &large)] {
        for (i, x) in set.iter().enumerate() {
            for (j, y) in set.iter().enumerate() {
                let lv = if lv == 0 && (i * 7 + j * 3) % 4 != 0 { 1 } else { lv };
                k.add(lv, |_| {
                    // 1 = x, 2 = y, 3 = a copy of x to work on
                    let mut v = vec![be(x), be(y), q("copy", 1), on("add", 3, 2), on("sub", 3, 1), on("add", 3, 3)];
                    if x.cmp(y) != std::cmp::Ordering::Less {
                        v.push(on("diff", 1, 2));
                    }
                    if !y.0.is_empty() {
                        v.push(on("rem", 1, 2));
                    }
                    v
                });
            }
        }
    }
    for (z, x) in large.iter().enumerate() {
        for sh in (0..=600u64).chain([1023, 1024, 1025, 2047, 2048, 2049, 4096, 65535, 65536, 65537]) {
            let lv = if (z as u64 * 5 + sh) % 41 == 0 && sh < 200 || z % 16 == 3 && [0, 1, 7, 8, 9, 255, 256, 257].contains(&sh) { 0 } else if sh > 5000 { 2 } else { 1 };
            k.add(lv, |_| vec![be(x), q("copy", 1), by("shl", 1, sh), by("shr", 1, sh), by("shr", 2, sh)]);
        }
        for sh in [0x7fffffffu64, 0x80000000, 0xfffffff7, 0xfffffff8, 0xffffffff, 0x10000, 0x100] {
            k.add(if z % 8 == 0 { 0 } else { 1 }, |_| vec![be(x), by("shr", 1, sh), q("bytes", 1)]);
        }
        for y in 0..256u64 {
            k.add(if (y + z as u64) % 64 == 5 || y % 255 == 0 && z % 8 == 0 { 0 } else { 1 }, |_| vec![be(x), by("addb", 1, y), by("addb", 1, y)]);
        }
    }
    // large amounts on a zero and on a one
    for sh in [1u64, 8, 100000, 1000000, 8000001] {
        k.add(2, |_| vec![e("be", vec![("data", b(&[]))]), by("shl", 1, sh), e("be", vec![("data", b(&[5]))]), by("shl", 2, sh), by("shr", 2, sh)]);
    }
    // zero shifted left by anything stays zero
    for sh in [0xffffffffu64, 0x80000000, 0xfffffff8] {
        k.add(2, |_| vec![e("be", vec![("data", b(&[0, 0]))]), by("shr", 1, sh)]);
    }
    // all pairs of small numbers
    for x in 0..=80usize {
        for y in 0..=80usize {
            k.add(if x < 18 && y < 18 { 0 } else { 1 }, |_| {
                let (a, c) = (Nat::from_be(&[x as u8]), Nat::from_be(&[y as u8]));
                let mut v = vec![be(&a), be(&c), q("copy", 1), on("add", 3, 2)];
                if x >= y {
                    v.push(on("diff", 1, 2));
                }
                if y > 0 {
                    v.push(on("rem", 1, 2));
                }
                v
            });
        }
    }
    // quotients of more than 2^16 bits
    for (z, l) in [8191usize, 8192, 8193, 8194, 8197, 8213, 8214].into_iter().enumerate() {
        for m in [1usize, 2, 5, 21] {
            k.add(2, |r| {
                let (mut x, mut y) = (r.plain(l), r.plain(m));
                x[0] |= 1 << (z + m) % 8;
                y[0] |= 1 << m % 8;
                vec![e("be", vec![("data", b(&x))]), e("be", vec![("data", b(&y))]), on("rem", 1, 2)]
            });
        }
    }
    // long quotients
    for (x, y) in [(1000u64, 1u64), (1000, 8), (1000, 500), (2000, 3), (4096, 2048), (4096, 4095)] {
        for d in 0..6u64 {
            k.add(2, |r| {
                let a = pow2(x).sub(&Nat(vec![1 + d as u32]));
                let mut c = pow2(y).add(&Nat(vec![d as u32]));
                if d > 3 {
                    c = Nat::from_be(&r.plain((y / 8 + 1) as usize)).add(&Nat(vec![1]));
                }
                vec![be(&a), be(&c), on("rem", 1, 2)]
            });
        }
    }
}
fn queries(k: &mut Sink) {
    let large = specials(false);
    let ask = |v: &mut Vec<J>, o: usize| {
        for x in ["bytes", "bits", "as_u128"] {
            v.push(q(x, o));
        }
    };
    // long numbers
    for (z, l) in LONG.iter().chain(&[2097152, 2097153]).enumerate() {
        for kind in 0..3 {
            for t in 0..3 {
                let lv = if *l < 1000 && t == (z + kind) % 3 || [4097, 8193, 32769, 65537].contains(l) && kind == 0 && t == 0 { 0 } else if *l < 40000 { 1 } else { 2 };
                k.add(lv, |r| {
                    let x = long(r, *l, kind);
                    let bits = 8 * (l - 1) as u64 + x[0].ilog2() as u64 + 1;
                    let mut y = x.clone();
                    match t {
                        0 => y[l - 1] ^= 1,
                        1 => y[l / 2] ^= 16,
                        _ => y.insert(0, 1),
                    }
                    let mut w = y.clone();
                    w.reverse();
                    let mut v = vec![e("be", vec![("data", b(&x))]), e("le", vec![("data", b(&w))]), on("cmp", 1, 2), on("cmp", 2, 1)];
                    for o in 1..=2 {
                        v.extend([q("bits", o), q("as_u128", o)]);
                    }
                    for at in [0, bits / 2, bits - 1, bits, r.b(bits as usize) as u64, bits.saturating_sub(65536), bits.saturating_sub(1 << 20)] {
                        v.push(by("bit", 1, at));
                    }
                    v.extend([by("set", 1, r.b(bits as usize) as u64), by("clear", 1, bits - 1), q("bits", 1), on("cmp", 1, 2), on("cmp", 2, 2)]);
                    v
                });
            }
        }
    }
    for (z, x) in large.iter().enumerate() {
        for zeros in 0..20usize {
            k.add(if (z + zeros) % 12 == 0 { 0 } else { 1 }, |_| {
                let mut d = vec![0; zeros];
                d.extend(x.to_be());
                let mut l = d.clone();
                l.reverse();
                let mut v = vec![e("be", vec![("data", b(&d))]), e("le", vec![("data", b(&l))]), be(x)];
                for o in 1..=3 {
                    ask(&mut v, o);
                }
                v.extend([on("cmp", 1, 2), on("cmp", 2, 3), on("cmp", 3, 1)]);
                v
            });
        }
        // after a subtraction that shrinks the number, and a removed top bit
        for (j, y) in large.iter().enumerate() {
            if y.cmp(x) == std::cmp::Ordering::Greater {
                continue;
            }
            k.add(if (z * 3 + j) % 40 == 0 || z == j && z % 4 == 0 { 0 } else { 1 }, |_| {
                let mut v = vec![be(x), be(y), on("diff", 1, 2), on("cmp", 1, 2), on("cmp", 2, 1), on("cmp", 3, 2), on("cmp", 3, 3)];
                ask(&mut v, 3);
                v
            });
        }
        let bits = x.bits();
        for i in 0..bits.div_ceil(8) * 8 {
            k.add(if (i + z as u64) % 29 == 0 && bits < 140 || i + 1 == bits && z % 3 == 0 { 0 } else { 1 }, |_| {
                let mut v = vec![be(x), q("copy", 1), by("clear", 1, i)];
                ask(&mut v, 1);
                v.extend([on("cmp", 1, 2), on("cmp", 2, 1)]);
                // clear everything from the top down to a few bits
                for t in (bits.saturating_sub(20)..bits).rev() {
                    if t / 8 < (bits.min(t + 1)).div_ceil(8) && t >= bits.saturating_sub(3) {
                        v.push(by("bit", 1, t));
                    }
                }
                v.push(by("set", 2, i));
                ask(&mut v, 2);
                v.push(by("bit", 2, i));
                v
            });
        }
        for i in [bits, bits + 1, bits + 7, bits + 8, bits + 64, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff] {
            k.add(if (i + z as u64) % 11 == 0 { 0 } else { 1 }, |_| vec![be(x), by("bit", 1, i)]);
        }
        // shifted out
        for sh in [1, bits.saturating_sub(1), bits, bits + 1, bits + 8] {
            k.add(if z % 5 == 0 { 0 } else { 1 }, |_| {
                let mut v = vec![be(x), by("shr", 1, sh), e("be", vec![("data", b(&[0, 0]))]), on("cmp", 1, 2), by("bit", 1, 0)];
                ask(&mut v, 1);
                v.push(by("shl", 1, sh));
                ask(&mut v, 1);
                v
            });
        }
        // remainders
        for y in [Nat(vec![1]), Nat(vec![2]), Nat(vec![255]), Nat(vec![256]), x.add(&Nat(vec![1])), pow2(8), pow2(64)] {
            k.add(if z % 9 == 0 { 0 } else { 1 }, |_| {
                let mut v = vec![be(x), be(&y), on("rem", 1, 2)];
                ask(&mut v, 1);
                v.extend([on("cmp", 1, 2)]);
                v
            });
        }
    }
    // numbers of the same length that differ in one byte or two
    for l in 1..=20usize {
        for i in 0..l {
            for j in 0..l {
                k.add(if (i + 3 * j + l) % 16 == 0 { 0 } else { 1 }, |r| {
                    let mut x = r.plain(l);
                    x[0] |= 1;
                    let mut y = x.clone();
                    x[i] = x[i].wrapping_add(1);
                    y[j] = y[j].wrapping_add(2);
                    vec![e("be", vec![("data", b(&x))]), e("be", vec![("data", b(&y))]), on("cmp", 1, 2), on("cmp", 2, 1), q("copy", 2), on("cmp", 2, 3)]
                });
            }
        }
    }
    // 128-bit values: single bits and the edge
    for i in 0..128usize {
        for c in 0..2 {
            k.add(if c == 0 && i % 3 == 0 { 0 } else { 1 }, |_| {
                let x: u128 = if c == 0 { 1 << i } else { u128::MAX >> i };
                let mut v = vec![e("u128", vec![("data", b(&x.to_be_bytes()))])];
                ask(&mut v, 1);
                v.extend([by("bit", 1, i as u64), by("bit", 1, 127 - i as u64), by("bit", 1, i as u64 + 1), by("addb", 1, 255)]);
                ask(&mut v, 1);
                v
            });
        }
    }
    for top in 0..256usize {
        k.add(if top % 16 == 0 { 0 } else { 1 }, |r| {
            let mut d = r.plain(17);
            d[0] = top as u8;
            let mut v = vec![e("be", vec![("data", b(&d))])];
            ask(&mut v, 1);
            v
        });
    }
}

// ------------------------------------------------------------------ PEM
const LABELS: &[&str] = &[
    "", "A", "PRIVATE KEY", "RSA PRIVATE KEY", " ", "  ", " A", "A ", "-", "--", "-----", "------", "A-----", "-----A", "A-----B", "-----BEGIN A-----", "-----END A-----", "BEGIN ", "END ", "=", "\t", "a\tb",
    "é", "\u{3000}", "\u{3000}x\u{3000}", "日本語", "x\u{85}", "\u{85}", "\u{2028}", "\u{a0}", "\u{b}\u{c}", "x\ry", "\u{200b}", "\0", "𝟘", "A:B", "X509 CRL", "label with many words in it", "END", "BEGIN",
];
fn pem_write(k: &mut Sink) {
    let both = |lb: &str, d: &[u8], via: usize| {
        let f = vec![("label", cps(lb)), ("data", b(d)), ("via", n(via))];
        vec![e("pem_write", f.clone()), e("pem_trip", f)]
    };
    for l in 0..=3000usize {
        let near = l % 48 < 2 || l % 48 > 46;
        let lv = if l < 12 || l <= 200 && (near || l % 6 == 0) || l == 480 { 0 } else { 1 };
        k.add(lv, |r| both(LABELS[l % LABELS.len()], &r.plain(l), l % 2));
        if near {
            k.add(1, |r| both("K", &r.bytes(l), l % 2));
        }
    }
    for lb in LABELS {
        for l in [0, 1, 2, 3, 47, 48, 49] {
            k.add(if l < 2 || l == 48 { 0 } else { 1 }, |r| both(lb, &r.plain(l), l % 2));
        }
    }
    for c in (0..0x3100u32).chain(0xfe00..0x10000).chain([0x1f600]) {
        if let Some(ch) = char::from_u32(c) {
            if ch != '\n' {
                k.add(if c < 256 && c % 4 == 0 { 0 } else { 1 }, |r| {
                    let mut v = both(&format!("{ch}"), &r.plain(2), 0);
                    v.extend(both(&format!("{ch}A{ch}"), &[1], 1));
                    v
                });
            }
        }
    }
    for l in [10000, 65535, 65536, 65537, 300000, 3_146_000] {
        k.add(2, |r| both("BIG", &r.plain(l), 0));
    }
    // long labels
    for l in (20..140usize).chain([180, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 65537]) {
        let lv = if l > 1100 { 2 } else if l % 16 == 1 || l == 256 { 0 } else { 1 };
        k.add(lv, |r| {
            let t: String = (0..l).map(|i| if i % 9 == 8 { ' ' } else { (b'A' + r.b(26) as u8) as char }).collect::<String>().trim_end().to_string() + "Z";
            both(&t, &r.plain(3), l % 2)
        });
        k.add(if lv == 0 { 1 } else { lv }, |r| {
            let t: String = (0..l).map(|_| r.pick(&['é', '日', 'a', 'Z', '𝟘', '-'])).collect();
            both(&t, &r.plain(3), l % 2)
        });
    }
    // all bytes, all byte pairs
    for x in 0..256usize {
        k.add(if x % 16 == 0 { 0 } else { 1 }, |_| both("A", &[x as u8], 0));
        k.add(1, |_| both("A", &(0..=255u8).flat_map(|y| [x as u8, y]).collect::<Vec<u8>>(), 0));
    }
}
fn pem_parse(k: &mut Sink) {
    let parse = |t: &str| e("pem_parse", vec![("text", cps(t))]);
    // every document of up to five lines of these kinds
    let lines = [
        "", "AAAA", "-----BEGIN A-----", "-----END A-----", "-----BEGIN B-----", "-----END B-----", "-----BEGIN A", "-----END A", "text", "QQ==", "-----BEGIN -----", "-----END -----",
        "-----BEGIN-----", "-----END-----", "-----BEGIN A----", "-----END A------",
    ];
    for len in 0..=5u32 {
        let base = if len <= 3 { lines.len() } else if len == 4 { 10 } else { 6 };
        for code in 0..base.pow(len) {
            let v: Vec<&str> = (0..len).map(|i| lines[code / base.pow(i) % base]).collect();
            let begins = v.iter().filter(|l| l.contains("BEGIN")).count();
            let ends = v.iter().filter(|l| l.contains("END")).count();
            let interesting = begins > 0 && ends > 0;
            let lv = if interesting && (len <= 2 || len == 3 && code % 6 == 0 || len == 4 && code % 60 == 0) { 0 } else { 1 };
            k.add(lv, |r| {
                let nl = r.pick(&["\n", "\n", "\r\n"]);
                let mut t = v.join(nl);
                if code % 2 == 0 {
                    t += nl;
                }
                vec![parse(&t)]
            });
        }
    }
    let doc = |body: &str| format!("-----BEGIN A-----\n{body}\n-----END A-----");
    // much of one thing: lines before, empty lines within, lines after, white space around, long labels, long lines
    for l in [10usize, 31, 32, 33, 63, 64, 65, 66, 70, 80, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 600, 1000, 1024, 1025, 4097, 65535, 65536, 65537] {
        let lv = if l > 1100 { 2 } else if l == 65 || l == 257 { 0 } else { 1 };
        k.add(lv, |_| vec![parse(&format!("{}{}", "x\n".repeat(l), doc("QUJD")))]);
        k.add(lv, |_| vec![parse(&format!("{}{}", "\n".repeat(l), doc("QUJD")))]);
        k.add(lv, |_| vec![parse(&format!("{}\n{}", doc("QUJD"), "y\n".repeat(l)))]);
        k.add(lv, |_| vec![parse(&format!("{}\n{}", doc("QUJD"), "\n".repeat(l)))]);
        k.add(lv, |_| vec![parse(&doc(&format!("QUJD{}REVG", "\n".repeat(l))))]);
        k.add(lv, |_| vec![parse(&doc(&"Q\n".repeat(4 * l)))]);
        k.add(lv, |_| vec![parse(&doc(&format!("{}QUJD{}", " ".repeat(l), " ".repeat(l))))]);
        k.add(lv, |_| vec![parse(&format!("{}-----BEGIN A-----{}\nQUJD\n{}-----END A-----{}", " ".repeat(l), "\t".repeat(l), " ".repeat(l), " ".repeat(l)))]);
        k.add(lv, |_| vec![parse(&format!("-----BEGIN {0}-----\nQUJD\n-----END {0}-----\n", "AB ".repeat(l) + "C"))]);
        k.add(lv, |_| vec![parse(&format!("-----BEGIN {0}A-----\nQUJD\n-----END {0}B-----\n", "A".repeat(l)))]);
        k.add(lv, |_| vec![parse(&format!("-----BEGIN {0}-----\nQUJD\n-----END {0}A-----\n", "A".repeat(l)))]);
        k.add(lv, |_| vec![parse(&doc(&"QUJD".repeat(l)))]);
        k.add(lv, |_| vec![parse(&(doc("QUJD") + "\n").repeat(l.min(3000)))]);
    }
    // every final group of a base64 text
    let alpha: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".chars().collect();
    for (i, &c) in alpha.iter().enumerate() {
        for pre in ["", "AAAA", "QUJDREVG"] {
            let lv = if i % 4 == 0 || i < 18 { 0 } else { 1 };
            k.add(lv, |_| vec![parse(&doc(&format!("{pre}A{c}=="))), parse(&doc(&format!("{pre}AA{c}="))), parse(&doc(&format!("{pre}AAA{c}")))]);
            k.add(1, |_| vec![parse(&doc(&format!("{pre}{c}A=="))), parse(&doc(&format!("{pre}{c}{c}{c}="))), parse(&doc(&format!("{pre}{c}{c}{c}{c}"))), parse(&doc(&format!("{pre}{c}"))), parse(&doc(&format!("{pre}{c}A"))), parse(&doc(&format!("{pre}{c}AA")))]);
        }
    }
    // every text of up to four characters from a small set, as body
    let set = ['A', 'B', 'Q', '=', '-', ' ', '\n', '_'];
    for len in 1..=5u32 {
        let base = if len < 5 { set.len() } else { 4 };
        for code in 0..base.pow(len) {
            k.add(if len <= 2 || len == 4 && code % 23 == 0 { 0 } else { 1 }, |_| {
                let t: String = (0..len).map(|i| set[code / base.pow(i) % base]).collect();
                vec![parse(&doc(&t))]
            });
        }
    }
    // every character: in the body, around the lines, inside the marks
    for c in (0..0x3100u32).chain(0xfe00..0x10000).chain([0x1680, 0x180e, 0x1f600, 0x10ffff]) {
        let Some(ch) = char::from_u32(c) else { continue };
        let ws = ch.is_whitespace();
        k.add(if c < 128 && c % 3 == 0 || ws || [0x180e, 0x200b, 0xfeff, 0x2060].contains(&c) { 0 } else { 1 }, |_| {
            vec![
                parse(&format!("{ch}-----BEGIN A-----\nAAAA\n-----END A-----")),
                parse(&format!("-----BEGIN A-----{ch}\nAAAA\n-----END A-----")),
                parse(&format!("-----BEGIN A-----\n{ch}AAAA\n-----END A-----")),
                parse(&format!("-----BEGIN A-----\nAAAA{ch}\n-----END A-----")),
                parse(&format!("-----BEGIN A-----\nAA{ch}AA\n-----END A-----")),
                parse(&format!("-----BEGIN A-----\nAAAA\n{ch}-----END A-----")),
                parse(&format!("-----BEGIN A-----\nAAAA\n-----END A-----{ch}")),
                parse(&format!("-----BEGIN {ch}-----\nAAAA\n-----END {ch}-----")),
                parse(&format!("-----BEGIN{ch}A-----\nAAAA\n-----END{ch}A-----")),
                parse(&format!("-----BEGIN A{ch}-----\nAAAA\n-----END A-----")),
                parse(&format!("-----BEGIN A-----\nAAAA\n-----END {ch}A-----")),
                parse(&format!("x{ch}\n-----BEGIN A-----\nAAAA\n-----END A-----\n{ch}y")),
            ]
        });
    }
    // other ways to end a line
    for (i, nl) in ["\r", "\r\n", "\n\r", "\r\r\n", "\n\n", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}", "\0", " ", "", "\\n", "\t"].into_iter().enumerate() {
        for mask in 1..8usize {
            k.add(if mask == 7 || mask == i % 8 { 0 } else { 1 }, |_| {
                let s = |b: usize| if mask >> b & 1 == 1 { nl } else { "\n" };
                vec![
                    parse(&format!("-----BEGIN A-----{}QUJD{}-----END A-----{}", s(0), s(1), s(2))),
                    parse(&format!("-----BEGIN A-----{}QUJD{}REVG{}-----END A-----", s(0), s(1), s(2))),
                    parse(&format!("x{}-----BEGIN A-----{}QUJD\n-----END A-----{}y", s(0), s(1), s(2))),
                ]
            });
        }
    }
    // all labels
    for x in LABELS {
        for y in LABELS {
            k.add(if x == y { 0 } else { 1 }, |_| vec![parse(&format!("-----BEGIN {x}-----\nAAAA\n-----END {y}-----\n"))]);
        }
    }
    // every truncation and every character removed, doubled or changed of one document
    let t: Vec<char> = "pre\n-----BEGIN AB-----\nQUJD\nREVG\nRw==\n-----END AB-----\npost\n".chars().collect();
    for i in 0..t.len() {
        k.add(if i % 2 == 0 { 0 } else { 1 }, |_| {
            let go = |v: Vec<char>| parse(&v.into_iter().collect::<String>());
            let mut o = vec![go(t[..i].to_vec()), go(t[i..].to_vec())];
            let mut v = t.clone();
            v.remove(i);
            o.push(go(v));
            let mut v = t.clone();
            v.insert(i, t[i]);
            o.push(go(v));
            for c in ['-', ' ', '\n', 'A', '=', 'b', '\r'] {
                let mut v = t.clone();
                v[i] = c;
                o.push(go(v));
                let mut v = t.clone();
                v.insert(i, c);
                o.push(go(v));
            }
            o
        });
    }
    // line widths
    for w in 1..=130usize {
        for l in [1, 2, 3, 48, 100, 199] {
            k.add(if w % 16 == 0 && l < 101 { 0 } else { 1 }, |r| {
                let body: Vec<char> = mirror::b64_encode(&r.plain(l)).chars().collect();
                let body: Vec<String> = body.chunks(w).map(|c| c.iter().collect()).collect();
                vec![parse(&doc(&body.join("\n"))), parse(&doc(&body.join("\r\n"))), parse(&doc(&body.join(" \n\n\t")))]
            });
        }
    }
}

// ------------------------------------------------------------------ DER
fn hdr(tag: u8, l: usize, width: usize) -> Vec<u8> {
    let mut o = vec![tag];
    let lb: Vec<u8> = (l as u64).to_be_bytes().into_iter().skip_while(|&x| x == 0).collect();
    if width == 0 {
        if l < 128 {
            o.push(l as u8);
        } else {
            o.push(0x80 | lb.len() as u8);
            o.extend(lb);
        }
    } else {
        o.push(0x80 | width as u8);
        o.extend(vec![0; width - lb.len()]);
        o.extend(lb);
    }
    o
}
fn tv(tag: u8, c: &[u8], width: usize) -> Vec<u8> {
    let mut o = hdr(tag, c.len(), width);
    o.extend(c);
    o
}
fn der_ev(d: &[u8]) -> J {
    e("der", vec![("data", b(d))])
}
fn der_values(k: &mut Sink) {
    let body = |r: &mut Rng, tag: u8, l: usize| -> Vec<u8> {
        let mut c = r.plain(l);
        if tag == 3 {
            c.insert(0, r.b(8) as u8);
        }
        c
    };
    for tag in [2u8, 4, 6, 3] {
        for l in 0..=700usize {
            let lv = if l < 6 || (125..=131).contains(&l) || (253..=259).contains(&l) || l % 64 == 9 { 0 } else { 1 };
            k.add(lv, |r| {
                let c = body(r, tag, l);
                let w = if c.len() < 256 { 1 } else { 2 };
                vec![der_ev(&tv(tag, &c, 0)), der_ev(&tv(tag, &c, w + 1)), der_ev(&tv(0x30, &tv(tag, &c, 0), 0))]
            });
            if l < 130 {
                for w in 1..=16 {
                    k.add(if l % 43 == w { 0 } else { 1 }, |r| vec![der_ev(&tv(tag, &body(r, tag, l), w))]);
                }
            }
        }
        for l in [32767, 32768, 65534, 65535, 65536, 65537, 70000, 1 << 20] {
            k.add(2, |r| vec![der_ev(&tv(tag, &body(r, tag, l), 0)), der_ev(&tv(0x30, &tv(tag, &body(r, tag, l), 0), 0))]);
        }
        // leading zero and sign bytes are kept
        for x in 0..256usize {
            k.add(if x % 32 == 0 || x > 253 { 0 } else { 1 }, |_| vec![der_ev(&tv(tag, &[x as u8], 0)), der_ev(&tv(tag, &[0, x as u8], 0)), der_ev(&tv(tag, &[0, 0, x as u8, 0], 0)), der_ev(&tv(tag, &[x as u8; 4], 0)), der_ev(&tv(tag, &[0xff, x as u8], 0))]);
        }
    }
    // bit strings: unused bit counts and contents
    for u in 0..256usize {
        for last in [0u8, 1, 0x80, 0xff] {
            k.add(if u < 9 || u % 64 == 0 { 0 } else { 1 }, |r| vec![der_ev(&tv(3, &[u as u8], 0)), der_ev(&tv(3, &[u as u8, last], 0)), der_ev(&tv(3, &[u as u8, r.byte(), last], 0))]);
        }
    }
    // sequences: shapes
    let leaf: [Vec<u8>; 5] = [vec![5, 0], vec![2, 1, 7], vec![4, 0], vec![3, 1, 0], vec![0x30, 0]];
    for len in 0..=4u32 {
        for code in 0..5usize.pow(len) {
            k.add(if len < 3 || code % 12 == 0 { 0 } else { 1 }, |r| {
                let c: Vec<u8> = (0..len).flat_map(|i| leaf[code / 5usize.pow(i) % 5].clone()).collect();
                let w = if c.len() < 128 { r.b(4) } else { 0 };
                let x = tv(0x30, &c, w);
                vec![der_ev(&x), der_ev(&tv(0x30, &[x.clone(), x.clone()].concat(), 0)), der_ev(&tv(0x30, &[x.clone(), vec![5, 0]].concat(), 2)), der_ev(&tv(0x30, &[vec![5, 0], x].concat(), 0))]
            });
        }
    }
    for count in 0..=300usize {
        k.add(if count % 50 == 0 || (126..130).contains(&count) { 0 } else { 1 }, |_| vec![der_ev(&tv(0x30, &vec![5, 0].repeat(count), 0)), der_ev(&tv(0x30, &tv(0x30, &vec![2, 1, 9].repeat(count), 0), 0))]);
    }
    for count in [400, 511, 512, 513, 800, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100000usize] {
        let lv = if count > 600 { 2 } else { 1 };
        for e in [&[5u8, 0][..], &[2, 1, 9], &[3, 2, 0, 1], &[0x30, 0], &[0x30, 2, 5, 0], &[6, 1, 42]] {
            k.add(lv, |_| vec![der_ev(&tv(0x30, &e.repeat(count), 0)), der_ev(&tv(0x30, &[tv(0x30, &e.repeat(count), 0), vec![4, 1, 7]].concat(), 0))]);
        }
    }
    for depth in 1..=64usize {
        for w in [0, 1, 3] {
            k.add(if depth % 9 == 0 || depth > 61 { 0 } else { 1 }, |_| {
                let mut x = vec![2, 1, depth as u8];
                for _ in 0..depth {
                    let ww = if w == 1 && x.len() > 255 { 2 } else { w };
                    x = tv(0x30, &x, ww);
                }
                vec![der_ev(&x)]
            });
        }
        // siblings on both sides, at every depth
        k.add(if depth % 16 == 0 { 0 } else { 1 }, |_| {
            let mut x = vec![5, 0];
            for i in 0..depth {
                x = tv(0x30, &[vec![2, 1, i as u8], x, vec![4, 1, i as u8]].concat(), 0);
            }
            vec![der_ev(&x)]
        });
    }
}
fn der_any(k: &mut Sink) {
    // all strings of up to two bytes, many of three and four
    k.add(0, |_| vec![der_ev(&[])]);
    for x in 0..256usize {
        k.add(0, |_| vec![der_ev(&[x as u8])]);
        k.add(1, |_| (0..256).map(|y| der_ev(&[x as u8, y as u8])).collect());
        // every tag
        k.add(if x % 2 == 0 { 0 } else { 1 }, |_| vec![der_ev(&[x as u8, 0]), der_ev(&[x as u8, 1, 0]), der_ev(&[0x30, 3, x as u8, 1, 5]), der_ev(&[0x30, 4, x as u8, 2, 5, 0])]);
        // every length octet
        for tag in [2u8, 3, 4, 5, 6, 0x30] {
            k.add(if x % 9 == 0 || (x as i32 - 0x88).abs() < 10 { 0 } else { 1 }, |_| {
                let mut v = vec![];
                for have in [0usize, 1, 2, x, x + 1, x.saturating_sub(1)] {
                    let mut d = vec![tag, x as u8];
                    d.extend(if tag == 0x30 { [5, 0].repeat(have)[..have].to_vec() } else { vec![0; have] });
                    v.push(der_ev(&d));
                }
                v
            });
        }
    }
    let al = [0u8, 1, 2, 3, 4, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0xff];
    for len in 3..=4u32 {
        for code in 0..al.len().pow(len) {
            k.add(if code % 97 == 0 { 0 } else { 1 }, |_| vec![der_ev(&(0..len).map(|i| al[code / al.len().pow(i) % al.len()]).collect::<Vec<u8>>())]);
        }
    }
    let al = [0u8, 1, 2, 5, 0x30, 0x81, 0x82];
    for len in 5..=6u32 {
        for code in 0..al.len().pow(len) {
            k.add(1, |_| vec![der_ev(&(0..len).map(|i| al[code / al.len().pow(i) % al.len()]).collect::<Vec<u8>>())]);
        }
    }
    // long length fields: every width, with the value at the low end and one byte set at each place
    for tag in [2u8, 4, 3, 5, 0x30] {
        for width in 0..=127usize {
            for hi in 0..=width {
                if hi > 20 && hi + 3 < width {
                    continue;
                }
                let lv = if width <= 17 && tag == 4 && (hi < 2 || hi + 1 >= width || hi == 8) { 0 } else { 1 };
                k.add(lv, |r| {
                    let mut v = vec![];
                    for val in [0usize, 1, 2] {
                        let mut lf = vec![0; width];
                        if width > 0 {
                            lf[width - 1] = val as u8;
                        }
                        if hi < width {
                            lf[hi] = r.pick(&[1, 1, 0x80, 0xff]);
                        }
                        for have in [val, 0, val + 1] {
                            let mut d = vec![tag, 0x80 | width as u8];
                            d.extend(&lf);
                            d.extend(if tag == 0x30 && have == 2 { vec![5, 0] } else { vec![1; have] });
                            v.push(der_ev(&d));
                        }
                    }
                    let mut d = vec![tag, 0x80 | width as u8];
                    d.extend(vec![0xff; width]);
                    v.push(der_ev(&d));
                    let cut = r.b(d.len() + 1);
                    v.push(der_ev(&d[..cut]));
                    v
                });
            }
        }
    }
    // every truncation, extension and byte change of some values
    for which in 0..6usize {
        let mut r = Rng::new(1, which as u64, "bases");
        let x = match which {
            0 => tv(0x30, &[tv(2, &[0, 200], 0), tv(5, &[], 0), tv(4, &[1, 2, 3], 0)].concat(), 0),
            1 => tv(0x30, &tv(0x30, &tv(6, &make::RSA_OID, 0), 1), 2),
            2 => tv(4, &r.plain(130), 0),
            3 => tv(3, &[0, 1, 2, 3], 3),
            4 => tv(0x30, &[tv(0x30, &[], 0), tv(0x30, &[5, 0], 0), tv(3, &[0], 0)].concat(), 0),
            _ => tv(0x30, &tv(4, &r.plain(255), 0), 0),
        };
        for i in 0..=x.len() {
            let lv = if i < 12 || i + 2 > x.len() { 0 } else { 1 };
            k.add(lv, |_| {
                let mut o = vec![der_ev(&x[..i])];
                if i < x.len() {
                    let mut y = x.clone();
                    y.remove(i);
                    o.push(der_ev(&y));
                    for v in [0, 1, 2, 3, 4, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0xff, x[i].wrapping_add(1), x[i].wrapping_sub(1), x[i] ^ 0x20] {
                        let mut y = x.clone();
                        y[i] = v;
                        o.push(der_ev(&y));
                    }
                }
                for v in [0, 5, 0x30] {
                    let mut y = x.clone();
                    y.insert(i, v);
                    o.push(der_ev(&y));
                }
                o
            });
            k.add(1, |_| {
                if i == x.len() {
                    return vec![];
                }
                (0..=255u8).map(|v| {
                    let mut y = x.clone();
                    y[i] = v;
                    der_ev(&y)
                }).collect()
            });
        }
    }
    // nesting far beyond what is promised: a value or an error, but no crash
    for depth in (60..=140).chain([200, 255, 256, 257, 500, 1000, 2000, 5000, 20000, 100000]) {
        k.add(if depth < 70 { 0 } else { 1 }, |_| {
            if depth > 300 {
                // without contents that fit
                return vec![der_ev(&[0x30, 0x80].repeat(depth)), der_ev(&[0x30, 0x7f].repeat(depth)), der_ev(&[0x30, 0x83, 0xff, 0xff, 0xff].repeat(depth))];
            }
            let mut x = vec![];
            for _ in 0..depth {
                x = tv(0x30, &x, 0);
            }
            vec![der_ev(&x)]
        });
    }
    for depth in [1000usize, 10000, 60000] {
        k.add(2, |_| {
            // lengths that do fit, made from the outside in
            let mut heads = vec![];
            let mut l = 0usize;
            for _ in 0..depth {
                let h = hdr(0x30, l, 0);
                l += h.len();
                heads.push(h);
            }
            heads.reverse();
            vec![der_ev(&heads.concat())]
        });
    }
}

// ------------------------------------------------------------------ key files
/// a key file as a tree whose strings may contain an encoded tree
#[derive(Clone)]
enum F {
    P(u8, Vec<u8>),
    S(Vec<F>),
    /// tag, bytes before, inner value, bytes after
    W(u8, Vec<u8>, Box<F>, Vec<u8>),
}
fn fenc(f: &F, w: usize) -> Vec<u8> {
    let t = |tag: u8, c: &[u8]| {
        let need = if c.len() < 256 { 1 } else { 2 };
        tv(tag, c, if w == 0 { 0 } else { w.max(need) })
    };
    match f {
        F::P(tag, c) => t(*tag, c),
        F::S(v) => t(0x30, &v.iter().flat_map(|x| fenc(x, w)).collect::<Vec<u8>>()),
        F::W(tag, a, x, z) => t(*tag, &[a.clone(), fenc(x, w), z.clone()].concat()),
    }
}
fn key_tree(private: bool, v: &[Nat]) -> F {
    let int = |x: &Nat| {
        let mut c = x.to_be();
        if c.is_empty() || c[0] >= 128 {
            c.insert(0, 0);
        }
        F::P(2, c)
    };
    let alg = F::S(vec![F::P(6, make::RSA_OID.to_vec()), F::P(5, vec![])]);
    if private {
        let mut k = vec![F::P(2, vec![0])];
        k.extend(v.iter().map(int));
        F::S(vec![F::P(2, vec![0]), alg, F::W(4, vec![], Box::new(F::S(k)), vec![])])
    } else {
        F::S(vec![alg, F::W(3, vec![0], Box::new(F::S(v[..2].iter().map(int).collect())), vec![])])
    }
}
/// all one-step changes of a tree
fn changes(f: &F) -> Vec<F> {
    let mut o = vec![];
    let extra = [F::P(5, vec![]), F::P(2, vec![1]), F::P(4, vec![]), F::S(vec![]), F::P(6, vec![42]), F::P(3, vec![0])];
    // replaced as a whole
    o.extend(extra.iter().cloned());
    o.push(F::S(vec![f.clone()]));
    o.push(F::W(4, vec![], Box::new(f.clone()), vec![]));
    o.push(F::W(3, vec![0], Box::new(f.clone()), vec![]));
    match f {
        F::P(tag, c) => {
            for t in [1, 2, 3, 4, 5, 6, 0x0c, 0x13, 0x30, 0x31, 0x82, 0xa0, 0x22] {
                if t != *tag {
                    o.push(F::P(t, c.clone()));
                }
            }
            let mut put = |c: Vec<u8>| o.push(F::P(*tag, c));
            put(vec![]);
            put([vec![0], c.clone()].concat());
            put([vec![0, 0], c.clone()].concat());
            put([vec![0xff], c.clone()].concat());
            put([vec![1], c.clone()].concat());
            put([c.clone(), vec![0]].concat());
            put([c.clone(), vec![1]].concat());
            put([c.clone(), c.clone()].concat());
            if !c.is_empty() {
                put(c[1..].to_vec());
                put(c[..c.len() - 1].to_vec());
            }
            for i in 0..c.len().min(10) {
                for bit in 0..8 {
                    let mut d = c.clone();
                    d[i] ^= 1 << bit;
                    put(d);
                }
            }
        }
        F::S(v) => {
            o.push(F::P(0x31, v.iter().flat_map(|x| fenc(x, 0)).collect()));
            o.push(F::P(4, v.iter().flat_map(|x| fenc(x, 0)).collect()));
            o.push(F::P(0x10, v.iter().flat_map(|x| fenc(x, 0)).collect()));
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                o.push(F::S(w));
                let mut w = v.clone();
                w.insert(i, v[i].clone());
                o.push(F::S(w));
                if i > 0 {
                    let mut w = v.clone();
                    w.swap(i, i - 1);
                    o.push(F::S(w));
                }
                o.push(F::S(v[..i].to_vec()));
                o.push(F::S(v[i..].to_vec()));
            }
            for i in 0..=v.len() {
                for x in &extra {
                    let mut w = v.clone();
                    w.insert(i, x.clone());
                    o.push(F::S(w));
                }
            }
            // two and more extra elements
            for z in 2..4 {
                let mut w = v.clone();
                w.extend(vec![F::P(2, vec![0]); z]);
                o.push(F::S(w));
            }
            // everything twice
            o.push(F::S([v.clone(), v.clone()].concat()));
            for (i, x) in v.iter().enumerate() {
                for y in changes(x) {
                    let mut w = v.clone();
                    w[i] = y;
                    o.push(F::S(w));
                }
            }
        }
        F::W(tag, a, x, z) => {
            for t in [2, 3, 4, 6, 0x30, 0x24, 0x23, 0x0c] {
                if t != *tag {
                    o.push(F::W(t, a.clone(), x.clone(), z.clone()));
                }
            }
            for u in 0..=255u8 {
                if u < 10 || u > 252 || u % 32 == 0 {
                    let mut p = a.clone();
                    if p.is_empty() {
                        p.push(u);
                    } else {
                        p[0] = u;
                    }
                    o.push(F::W(*tag, p, x.clone(), z.clone()));
                }
            }
            for p in [vec![], vec![0, 0]] {
                o.push(F::W(*tag, p, x.clone(), z.clone()));
            }
            for t in [vec![0], vec![5, 0], vec![0, 0], vec![2, 1, 1], vec![0xff]] {
                o.push(F::W(*tag, a.clone(), x.clone(), t));
            }
            let full = fenc(x, 0);
            for cut in [0, 1, 2, full.len() - 1, full.len() / 2] {
                o.push(F::P(*tag, [a.clone(), full[..cut].to_vec()].concat()));
            }
            o.push(F::P(*tag, [a.clone(), full.clone(), full.clone()].concat()));
            for y in changes(x) {
                o.push(F::W(*tag, a.clone(), Box::new(y), z.clone()));
            }
        }
    }
    o
}
fn key_ev(private: bool, lb: &str, d: &[u8], via: usize) -> J {
    e(if private { "priv" } else { "pub" }, vec![("label", cps(lb)), ("data", b(d)), ("via", n(via))])
}
fn lab(private: bool) -> &'static str {
    if private { "PRIVATE KEY" } else { "PUBLIC KEY" }
}
fn raw(o: usize, m: &[u8], dir: &str) -> J {
    e("raw", vec![("obj", n(o)), ("data", b(m)), ("dir", s(dir))])
}
/// a file and, if it makes a key with a modulus above 1, a use of the key
fn file_and_use(private: bool, d: &[u8]) -> Vec<J> {
    let mut v = vec![key_ev(private, lab(private), d, 0)];
    match mirror::key_file(private, d) {
        mirror::File::No => v.push(raw(1, &[0x12, 0x34], "enc")),
        mirror::File::Yes(m, _) | mirror::File::Open(m, _) => {
            if m.bits() > 1 {
                v.push(raw(1, &[0x12, 0x34], "enc"));
            }
        }
    }
    v
}
fn keq(i: usize, j: usize) -> J {
    e("keq", vec![("obj", n(i)), ("other", n(j))])
}
fn values(k: &mut Sink) {
    // two keys that differ in one bit of one number, or in nothing that matters
    let nums: Vec<Nat> = ["c5a7", "10003", "1235", "f1", "d2", "11", "25", "81"].iter().map(|h| Nat::from_hex(h)).collect();
    let big: Vec<Nat> = ["f3a1c5a700000000000000000000000000000000000001", "800000000000000000000003", "a235000000000000000000000000000000000000000000000000123456", "f1", "d2", "11", "25", "81"].iter().map(|h| Nat::from_hex(h)).collect();
    for private in [true, false] {
        for (z, base) in [&nums, &big].iter().enumerate() {
            for at in 0..if private { 8 } else { 2 } {
                for bit in (0..=base[at].bits() + 1).chain([64, 128, 255, 256, 1000]) {
                    for w in 0..3usize {
                        let lv = if w == (bit as usize + at) % 3 && (z == 0 || bit % 5 == 0) && bit < 260 { 0 } else { 1 };
                        k.add(lv, |_| {
                            let mut v = (*base).clone();
                            let p = pow2(bit);
                            v[at] = if base[at].shr(bit).0.first().is_some_and(|x| x & 1 == 1) { base[at].sub(&p) } else { base[at].add(&p) };
                            let mut x = vec![
                                key_ev(private, lab(private), &fenc(&key_tree(private, base), 0), w % 2),
                                key_ev(private, lab(private), &fenc(&key_tree(private, &v), w), 0),
                                keq(1, 2), keq(2, 1), keq(1, 1), q("kclone", 2), keq(2, 3), keq(1, 3),
                            ];
                            if v[0].bits() > 1 && v[0].bits() < 300 {
                                x.push(raw(3, &[0x12, 0x34], "enc"));
                            }
                            x
                        });
                    }
                }
            }
        }
    }
    // generated keys, compared with themselves, with others, and with the file of the public one
    let ps = [3u32, 5, 7, 11, 13, 23, 47, 257];
    for (i, p) in ps.iter().enumerate() {
        for (j, t) in ps.iter().enumerate() {
            for (l, x) in [5u32, 7, 13, 17, 65537].iter().enumerate() {
                if i == j || (p - 1) % x == 0 || (t - 1) % x == 0 {
                    continue;
                }
                k.add(if (i + j + l) % 3 == 0 { 0 } else { 1 }, |_| {
                    let c = |p: u32, t: u32, x: u32| e("create", vec![("p", b(&p.to_be_bytes())), ("q", b(&t.to_be_bytes())), ("e", b(&x.to_be_bytes()))]);
                    let file = key_tree(false, &[Nat(vec![p * t]), Nat(vec![*x])]);
                    vec![
                        c(*p, *t, *x), c(*t, *p, *x), c(47, 59, 17),
                        keq(1, 3), keq(2, 4), keq(1, 5), keq(2, 6), keq(3, 5), keq(4, 6), keq(1, 1),
                        key_ev(false, lab(false), &fenc(&file, 0), 0), keq(7, 2), keq(4, 7), keq(7, 6),
                        q("kclone", 1), keq(1, 8), keq(3, 8), keq(8, 5), raw(8, &[0x12], "dec"),
                    ]
                });
            }
        }
    }
    // decoded values: every pair of small ones, some written with longer length fields
    let mut vs: Vec<F> = vec![F::P(5, vec![])];
    for tag in [2u8, 4, 6, 3] {
        for c in [&[][..], &[0], &[1], &[0, 0], &[0, 1], &[1, 0], &[7, 128], &[0, 0, 1]] {
            if tag != 3 || !c.is_empty() {
                vs.push(F::P(tag, c.to_vec()));
            }
        }
    }
    let leaves = vs.clone();
    vs.push(F::S(vec![]));
    vs.push(F::S(vec![F::S(vec![])]));
    vs.push(F::S(vec![F::S(vec![]), F::S(vec![])]));
    vs.push(F::S(vec![F::S(vec![F::S(vec![])])]));
    for x in &leaves[..12] {
        vs.push(F::S(vec![x.clone()]));
        vs.push(F::S(vec![x.clone(), x.clone()]));
        vs.push(F::S(vec![F::S(vec![x.clone()])]));
        vs.push(F::S(vec![x.clone(), leaves[2].clone()]));
        vs.push(F::S(vec![leaves[2].clone(), x.clone()]));
        vs.push(F::S(vec![F::S(vec![x.clone()]), leaves[3].clone()]));
    }
    for (i, x) in vs.iter().enumerate() {
        for (j, y) in vs.iter().enumerate() {
            k.add(if (3 * i + j) % 11 == 0 || i == j || i + 1 == j { 0 } else { 1 }, |_| {
                vec![e("der_eq", vec![("data", b(&fenc(x, (i + j) % 3))), ("data2", b(&fenc(y, j % 2)))])]
            });
        }
    }
    // long ones that differ in one place
    for l in [100usize, 127, 128, 255, 256, 257, 1000, 70000] {
        for at in 0..6 {
            for tag in [2u8, 3, 4, 6] {
                k.add(if l < 300 && at % 3 == 0 { 0 } else if l < 2000 { 1 } else { 2 }, |r| {
                    let mut c = r.plain(l);
                    c[0] = 0;
                    let mut d = c.clone();
                    let x = [l, 1, l / 2, l - 1, l - 2, 64][at];
                    if x < l {
                        d[x] ^= 1;
                    }
                    let w = if l < 65536 { 2 } else { 3 };
                    vec![e("der_eq", vec![("data", b(&tv(tag, &c, w))), ("data2", b(&tv(tag, &d, w)))])]
                });
            }
        }
    }
}
fn key_files(k: &mut Sink) {
    for private in [true, false] {
        let v: Vec<Nat> = ["c5a7", "10003", "1235", "f1", "d2", "11", "25", "81"].iter().map(|h| Nat::from_hex(h)).collect();
        // the public exponent follows the modulus in both kinds of file
        let base = key_tree(private, &v);
        let cs = changes(&base);
        for (i, c) in cs.iter().enumerate() {
            let enc = fenc(c, 0);
            let lv = if private { i % 3 == 0 || i < 40 } else { i % 2 == 0 };
            k.add(if lv { 0 } else { 1 }, |_| file_and_use(private, &enc));
        }
        // two changes at once, at random
        for i in 0..20000usize {
            k.add(1, |r| {
                let c = &cs[r.b(cs.len())];
                let d = changes(c);
                let x = &d[r.b(d.len())];
                file_and_use(private, &fenc(x, i % 3))
            });
        }
        // bytes of the file
        let d = fenc(&base, 0);
        for i in 0..=d.len() {
            k.add(if i % 4 == 0 { 0 } else { 1 }, |_| {
                let mut o = vec![];
                o.push(key_ev(private, lab(private), &d[..i], 0));
                if i < d.len() {
                    let mut y = d.clone();
                    y.remove(i);
                    o.push(key_ev(private, lab(private), &y, 0));
                    for x in [0, 1, d[i] ^ 1, d[i] ^ 0x80, d[i].wrapping_add(1), d[i].wrapping_sub(1)] {
                        let mut y = d.clone();
                        y[i] = x;
                        o.push(key_ev(private, lab(private), &y, 0));
                    }
                }
                for x in [0, 2, 5] {
                    let mut y = d.clone();
                    y.insert(i, x);
                    o.push(key_ev(private, lab(private), &y, 0));
                }
                o
            });
            if i < d.len() {
                k.add(1, |_| {
                    (0..=255u8).map(|x| {
                        let mut y = d.clone();
                        y[i] = x;
                        key_ev(private, lab(private), &y, 0)
                    }).collect()
                });
            }
        }
        // labels
        for lb in [
            "PRIVATE KEY", "PUBLIC KEY", "RSA PRIVATE KEY", "RSA PUBLIC KEY", "EC PRIVATE KEY", "ENCRYPTED PRIVATE KEY", "", "private key", "public key", "Private Key", " PRIVATE KEY", "PRIVATE KEY ", "PUBLIC KEY ", " PUBLIC KEY",
            "PRIVATE  KEY", "PRIVATEKEY", "PRIVATE", "KEY", "PRIVATE KEY X", "PUBLIC KEY X", "PUBLIC", "PRIVATE_KEY", "CERTIFICATE", "PRIVATE KEY\0", "PUBLIC KEYS", "PRIVATE KEYS", "OPENSSH PRIVATE KEY", "PRIVATE\tKEY", "PUBLIC\u{a0}KEY",
        ] {
            k.add(0, |_| vec![key_ev(private, lb, &d, 0), raw(1, &[9], "dec")]);
        }
        // sizes of the numbers, with and without sign byte; file length fields of both kinds
        for ml in 1..=140usize {
            for top in [0x01u8, 0x7f, 0x80, 0xff] {
                k.add(if ml < 20 && ml % 3 == 0 { 0 } else { 1 }, |r| {
                    let mut nn = r.plain(ml);
                    nn[0] = top;
                    nn[ml - 1] |= 3;
                    let el = if ml > 20 { 1 } else { 1 + r.b(3) };
                    let mut x = r.plain(el);
                    x[0] |= 1;
                    let nat = |d: &[u8]| Nat::from_be(d);
                    let mut v = vec![nat(&nn), nat(&x), nat(&x), nat(&[3]), nat(&[5]), nat(&[7]), nat(&[7]), nat(&[7])];
                    if private {
                        v[1] = nat(&r.plain(4));
                    }
                    let d = fenc(&key_tree(private, &v), r.b(3));
                    vec![key_ev(private, lab(private), &d, r.b(2)), raw(1, &r.plain(ml), "enc"), raw(1, &r.plain(ml / 2 + 1), "dec")]
                });
            }
        }
        // extra leading zeros in the numbers
        for which in 0..8usize {
            for z in 1..6usize {
                k.add(if z < 3 { 0 } else { 1 }, |_| {
                    let mut t = key_tree(private, &v);
                    let F::S(o) = &mut t else { return vec![] };
                    let l = o.len() - 1;
                    if let F::W(_, _, x, _) = &mut o[l] {
                        if let F::S(y) = x.as_mut() {
                            let at = which % y.len();
                            if let F::P(2, c) = &mut y[at] {
                                *c = [vec![0; z], c.clone()].concat();
                            }
                        }
                    }
                    vec![key_ev(private, lab(private), &fenc(&t, 0), 0), raw(1, &[0x55, 0x66], "enc")]
                });
            }
        }
        // exponents of every kind
        for h in ["0", "1", "2", "3", "7f", "80", "ff", "100", "10001", "ffffffff", "100000000", "8000000000000000", "10000000000000000", "ffffffffffffffffffffffffffffffff", "100000000000000000000000000000000", "123456789abcdef0123456789abcdef012345"] {
            k.add(if h.len() < 10 { 0 } else { 1 }, |_| {
                let mut w = v.clone();
                w[1] = Nat::from_hex(h);
                w[2] = if private { Nat::from_hex(h) } else { w[2].clone() };
                if private {
                    w[1] = Nat::from_hex("5");
                }
                vec![key_ev(private, lab(private), &fenc(&key_tree(private, &w), 0), 0), raw(1, &[3], "enc"), raw(1, &[0xab, 0xcd], "dec")]
            });
        }
    }
    // the other kind of file
    let v: Vec<Nat> = ["c5a7", "3", "1235", "f1", "d2", "11", "25", "81"].iter().map(|h| Nat::from_hex(h)).collect();
    for private in [true, false] {
        let d = fenc(&key_tree(!private, &v), 0);
        k.add(0, |_| vec![key_ev(private, lab(private), &d, 0)]);
        k.add(0, |_| vec![key_ev(private, lab(!private), &d, 0)]);
        // the inner structures alone
        if let F::S(o) = key_tree(private, &v) {
            if let F::W(_, _, x, _) = &o[o.len() - 1] {
                let d = fenc(x, 0);
                k.add(0, |_| vec![key_ev(private, lab(private), &d, 0), key_ev(!private, lab(!private), &d, 0)]);
            }
        }
    }
}

// ------------------------------------------------------------------ RSA
fn small_primes(max: u64) -> Vec<u64> {
    (2..max).filter(|&x| make::is_prime(x)).collect()
}
fn be128(x: u128) -> Vec<u8> {
    x.to_be_bytes().into_iter().skip_while(|&c| c == 0).collect()
}
/// p, q primes with p * q below 2^128, or not
fn pair(r: &mut Rng, p: u128, q: u128, x: u128, ms: &[u128]) -> Vec<J> {
    let fits = p.checked_mul(q).is_some();
    let bad = make::gcd(x, p - 1) != 1 || make::gcd(x, q - 1) != 1;
    let (mut pb, mut qb) = (be128(p), be128(q));
    if r.one_in(4) {
        pb.insert(0, 0);
        qb.insert(0, 0);
    }
    let mut v = vec![e("create", vec![("p", b(&pb)), ("q", b(&qb)), ("e", b(&be128(x))), ("_bad", n((bad || !fits) as usize))])];
    if !bad && fits {
        for &m in ms {
            for o in [2, 1] {
                v.push(raw(o, &be128(m % (p * q)), r.pick(&["enc", "dec"])));
                let at = v.len();
                v.push(e("raw", vec![("obj", n(3 - o)), ("refs", J::Arr(vec![n(at)])), ("dir", s(r.pick(&["enc", "dec"])))]));
            }
        }
    }
    v
}
fn pairs(k: &mut Sink) {
    let ps = small_primes(60);
    for &p in &ps {
        for &q in &ps {
            if p == q {
                continue;
            }
            for x in 0..=40u128 {
                let lv = if p < 24 && q < 24 && (x + p as u128 + q as u128) % 5 == 0 && x < 30 { 0 } else { 1 };
                k.add(lv, |r| {
                    let m = r.u() as u128;
                    let all: Vec<u128> = if lv == 1 && p * q < 100 { (0..(p * q) as u128).collect() } else { vec![0, 1, p as u128, q as u128, (p * q - 1) as u128, m] };
                    pair(r, p as u128, q as u128, x, if lv == 0 { &all[2..] } else { &all })
                });
            }
            // exponents around multiples of the order
            let phi = ((p - 1) * (q - 1)) as u128;
            let l = phi / make::gcd(p as u128 - 1, q as u128 - 1);
            for x in [l - 1.min(l), l, l + 1, phi - 1.min(phi), phi, phi + 1, 2 * phi + 1, 3 * l - 1, 1 << 64, (1 << 64) + 1, u128::MAX, u128::MAX - 1, (1 << 127) + 1] {
                k.add(1, |r| {
                    let m = r.u() as u128;
                    pair(r, p as u128, q as u128, x, &[m, 2])
                });
            }
        }
    }
    // sizes: Mersenne primes and primes near powers of two, up to products around 2^128
    let mut big: Vec<u128> = [2u32, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127].iter().map(|&k| (1u128 << k) - 1).collect();
    big.push(2);
    for bits in [8u32, 16, 21, 22, 32, 33, 48, 63, 64] {
        let lo = 1u64 << (bits - 1);
        big.extend((lo..).filter(|&x| make::is_prime(x)).take(2).map(|x| x as u128));
        let hi = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        big.extend((0..500).map(|d| hi - d).filter(|&x| make::is_prime(x)).take(2).map(|x| x as u128));
    }
    big.sort();
    big.dedup();
    for (i, &p) in big.iter().enumerate() {
        for (j, &q) in big.iter().enumerate() {
            if p == q {
                continue;
            }
            for x in [1u128, 3, 5, 17, 257, 65537, 0x1_0000_000f, (1 << 61) - 1, (1 << 127) - 1] {
                let over = p.checked_mul(q).is_none();
                let lv = if over && x == 3 && (i + j) % 3 == 0 || p.leading_zeros() + q.leading_zeros() > 210 && (i + j) % 3 == 0 && x < 70000 { 0 } else { 1 };
                k.add(if lv == 1 { 2 } else { 0 }, |r| {
                    let m = (r.u() as u128) << 64 | r.u() as u128;
                    pair(r, p, q, x, &[m])
                });
            }
        }
    }
}
fn powers(k: &mut Sink) {
    let key = |r: &mut Rng, nn: &Nat, x: &Nat| {
        let rest: Vec<Nat> = (0..6).map(|_| Nat(vec![5])).collect();
        let p = r.one_in(2);
        make::import(r, p, nn, x, &rest)
    };
    for m in 2..=70u32 {
        for x in 0..=36u32 {
            let lv = if (m + 2 * x) % 9 == 0 && x < 20 { 0 } else { 1 };
            k.add(lv, |r| {
                let nn = Nat(vec![m]);
                let mut v = vec![key(r, &nn, &if x == 0 { Nat(vec![]) } else { Nat(vec![x]) })];
                let step = if lv == 0 { 1 + m / 9 } else { 1 };
                for y in (0..=2 * m + 1).step_by(step as usize) {
                    v.push(raw(1, &be128(y as u128), if y % 2 == 0 { "enc" } else { "dec" }));
                }
                v
            });
        }
    }
    // sizes of modulus, exponent and operand; special shapes
    for ml in 1..=40usize {
        for kind in 0..6 {
            for el in [0usize, 1, 2, 3, 5, 8, 9, 16, 17, 33] {
                let lv = if ml % 7 == 1 && el < 3 && ml < 20 { 0 } else if ml * el > 200 { 2 } else { 1 };
                if ml * el > 500 {
                    continue;
                }
                k.add(lv, |r| {
                    let mut nn = match kind {
                        0 => vec![0xff; ml],
                        1 => {
                            let mut v = vec![0; ml];
                            v[0] = 1;
                            v
                        }
                        2 => {
                            let mut v = vec![0; ml];
                            v[0] = 0x80;
                            v[ml - 1] |= 1;
                            v
                        }
                        _ => r.plain(ml),
                    };
                    if Nat::from_be(&nn).bits() < 2 {
                        nn = vec![2];
                    }
                    let x = match kind % 3 {
                        0 => vec![0xff; el],
                        1 => {
                            let mut v = vec![0; el];
                            if el > 0 {
                                v[0] = 1;
                            }
                            v
                        }
                        _ => r.plain(el),
                    };
                    let nn = Nat::from_be(&nn);
                    let mut v = vec![key(r, &nn, &Nat::from_be(&x))];
                    let one = Nat(vec![1]);
                    for m in [Nat(vec![]), one.clone(), nn.sub(&one), nn.clone(), nn.add(&one), nn.add(&nn), Nat::from_be(&r.plain(ml)), Nat::from_be(&r.plain(2 * ml + 1))] {
                        let dir = r.pick(&["enc", "dec"]);
                        v.push(raw(1, &m.to_be(), dir));
                    }
                    v
                });
            }
        }
    }
    // leading zero bytes of the operand
    for z in 0..40usize {
        k.add(if z % 8 == 0 { 0 } else { 1 }, |r| {
            let nn = Nat::from_hex("c5a7f1");
            let mut d = vec![0; z];
            d.extend(r.plain(3));
            vec![key(r, &nn, &Nat(vec![17])), raw(1, &d, "enc"), raw(1, &d, "dec")]
        });
    }
    // exponents 2^j - 1, 2^j, 2^j + 1
    for j in 0..=140u64 {
        for d in 0..3u32 {
            k.add(if j < 24 && (j + d as u64) % 4 == 0 { 0 } else { 1 }, |r| {
                let x = pow2(j).add(&Nat(vec![1])).sub(&Nat(vec![d + 1]).sub(&Nat(vec![1])));
                let nn = Nat::from_hex("fffffffb").mul(&Nat::from_hex("10001"));
                let m = r.plain(6);
                vec![key(r, &nn, &x), raw(1, &m, "enc"), raw(1, &[2], "dec")]
            });
        }
    }
}
struct Pair {
    nn: Nat,
    e: Nat,
    d: Nat,
    p: Nat,
    q: Nat,
}
fn keys(lo: usize, hi: usize) -> Vec<Pair> {
    KEYS.iter()
        .filter(|k| k.0 >= lo && k.0 <= hi)
        .map(|k| {
            let (p, q) = (Nat::from_hex(k.1), Nat::from_hex(k.2));
            Pair { nn: p.mul(&q), e: Nat::from_hex(k.3), d: Nat::from_hex(k.4), p, q }
        })
        .collect()
}
fn import_pair(r: &mut Rng, y: &Pair) -> Vec<J> {
    let one = Nat(vec![1]);
    let rest = [y.e.clone(), y.p.clone(), y.q.clone(), y.d.rem(&y.p.sub(&one)), y.d.rem(&y.q.sub(&one)), one];
    vec![make::import(r, true, &y.nn, &y.d, &rest), make::import(r, false, &y.nn, &y.e, &rest)]
}
/// dir "pub": encrypt with the public key and decrypt with the private one; "sig": the other way round
fn msg_ev(op: &str, y: &Pair, sig: bool, pad: &str, mut f: Vec<(&'static str, J)>) -> J {
    let enc = op == "encmsg";
    let o = if enc != sig { 2 } else { 1 };
    let x = if sig { &y.e } else { &y.d };
    let mut g = vec![("obj", n(o)), ("pad", s(pad)), ("_wn", s(&y.nn.hex())), ("_wx", s(&x.hex()))];
    g.append(&mut f);
    e(op, g)
}
fn refs(at: usize) -> (&'static str, J) {
    ("refs", J::Arr(vec![n(at)]))
}
fn messages(k: &mut Sink) {
    for y in keys(17, 400) {
        let kb = y.nn.to_be().len();
        for l in 0..=kb + 1 {
            for kind in 0..4 {
                for sig in [false, true] {
                    if sig && kind > 1 {
                        continue;
                    }
                    let lv = if kb <= 8 && kind < 2 && !sig || kb <= 17 && l + 3 > kb && kind == 0 && !sig { 0 } else if kb > 26 { 2 } else { 1 };
                    if kb > 26 && (l + 4 < kb && l > 2 && l % 5 != 0 || kind > 1) {
                        continue;
                    }
                    k.add(lv, |r| {
                        let m = match kind {
                            0 => r.plain(l),
                            1 => vec![0; l],
                            2 => vec![0xff; l],
                            _ => vec![1; l],
                        };
                        let mut v = import_pair(r, &y);
                        v.push(msg_ev("encmsg", &y, sig, "toy", vec![("data", b(&m))]));
                        if l + 2 <= kb {
                            v.push(msg_ev("decmsg", &y, sig, "toy", vec![refs(3)]));
                        }
                        v
                    });
                }
            }
        }
    }
    // many messages, so that ciphertexts with leading zero bytes appear
    for y in keys(17, 140) {
        let kb = y.nn.to_be().len();
        for i in 0..400usize {
            k.add(1, |r| {
                let l = r.b(kb - 1);
                let m = r.plain(l);
                let mut v = import_pair(r, &y);
                v.push(msg_ev("encmsg", &y, i % 4 == 0, "toy", vec![("data", b(&m))]));
                v.push(msg_ev("decmsg", &y, i % 4 == 0, "toy", vec![refs(3)]));
                v
            });
        }
    }
    for (i, y) in keys(505, 800).iter().enumerate() {
        let kb = y.nn.to_be().len();
        let fit = kb as i64 - 66;
        for l in [0, 1, 2, fit - 1, fit, fit + 1, fit + 2] {
            if l < 0 {
                continue;
            }
            let small = l as usize <= 2 && i % 4 == 0 && kb < 70;
            k.add(if small { 0 } else { 2 }, |r| {
                let m = if l % 2 == 0 { r.plain(l as usize) } else { vec![0; l as usize] };
                let mut v = import_pair(r, y);
                v.push(msg_ev("encmsg", y, false, "oaep", vec![("data", b(&m))]));
                if l <= fit {
                    v.push(msg_ev("decmsg", y, false, "oaep", vec![refs(3)]));
                }
                v
            });
        }
    }
}
fn bad_messages(k: &mut Sink) {
    for y in keys(17, 200) {
        let kb = y.nn.to_be().len();
        let lvl = |x: bool| if x && kb < 12 { 0 } else { 1 };
        let one = |r: &mut Rng, l: usize, f: Vec<(&'static str, J)>| {
            let m = r.plain(l);
            let mut v = import_pair(r, &y);
            v.push(msg_ev("encmsg", &y, false, "toy", vec![("data", b(&m))]));
            let mut g = vec![refs(3)];
            g.extend(f);
            v.push(msg_ev("decmsg", &y, false, "toy", g));
            v
        };
        for bit in 0..8 * kb {
            k.add(lvl(bit % 7 == 0), |r| {
                let l = r.b(kb - 1);
                one(r, l, vec![("xor", json::ints(&[bit as i64 / 8, 1 << (bit % 8)]))])
            });
        }
        for cut in 0..kb {
            k.add(lvl(cut % 3 == 0), |r| one(r, kb / 2, vec![("cut", n(cut))]));
            k.add(lvl(cut % 3 == 1), |r| one(r, kb / 2, vec![("skip", n(cut + 1))]));
        }
        for z in 1..4usize {
            for x in [0u8, 1, 0xff] {
                k.add(lvl(true), |r| one(r, kb / 2, vec![("pre", b(&vec![x; z]))]));
                k.add(lvl(z == 1), |r| one(r, kb / 2, vec![("post", b(&vec![x; z]))]));
            }
        }
        // numbers as ciphertexts: small ones, ones around and above the modulus, all with and without leading zeros
        let at = |m: Nat, pad: i64| -> Vec<u8> {
            let mut c = m.to_be();
            while (c.len() as i64) < kb as i64 + pad {
                c.insert(0, 0);
            }
            c
        };
        for i in 0..60u32 {
            for which in 0..4 {
                k.add(if kb < 12 && (i + which) % 11 == 0 { 0 } else { 1 }, |r| {
                    let i = Nat::from_be(&[i as u8]);
                    let m = match which {
                        0 => i,
                        1 => y.nn.sub(&i),
                        2 => y.nn.add(&i),
                        _ => y.nn.add(&y.nn).add(&i),
                    };
                    let c = at(m, r.b(3) as i64 - 1);
                    let mut v = import_pair(r, &y);
                    v.push(msg_ev("decmsg", &y, false, "toy", vec![("data", b(&c))]));
                    v
                });
            }
        }
        // encodings of every shape: a separator of every value, at every place
        for place in 0..kb {
            for sep in [0u8, 1, 2, 0x80, 0xff] {
                for sig in [false, true] {
                    k.add(if kb < 12 && (place + sep as usize) % 5 == 0 && !sig { 0 } else { 1 }, |r| {
                        let mut em = vec![0; kb];
                        em[place] = sep;
                        for x in &mut em[place + 1..] {
                            *x = r.byte();
                        }
                        let em = Nat::from_be(&em).rem(&y.nn);
                        let c = em.pow_mod(if sig { &y.d } else { &y.e }, &y.nn);
                        let mut v = import_pair(r, &y);
                        v.push(msg_ev("decmsg", &y, sig, "toy", vec![("data", b(&at(c, 0)))]));
                        v
                    });
                }
            }
        }
        // too long messages
        for l in kb - 1..kb + 4 {
            k.add(lvl(true), |r| {
                let m = vec![0; l];
                let mut v = import_pair(r, &y);
                v.push(msg_ev("encmsg", &y, false, "toy", vec![("data", b(&m))]));
                v
            });
        }
    }
    // under another key
    let ks = keys(17, 140);
    for (i, y) in ks.iter().enumerate() {
        for (j, z) in ks.iter().enumerate() {
            if (i as i64 - j as i64).abs() > 3 || i == j {
                continue;
            }
            k.add(if i < 12 && (i + j) % 3 == 0 { 0 } else { 1 }, |r| {
                let l = r.b(y.nn.to_be().len() - 1);
                let m = r.plain(l);
                let mut v = import_pair(r, y);
                v.extend(import_pair(r, z));
                v.push(msg_ev("encmsg", y, false, "toy", vec![("data", b(&m))]));
                v.push(e("decmsg", vec![("obj", n(3)), ("pad", s("toy")), ("_wn", s(&z.nn.hex())), ("_wx", s(&z.d.hex())), refs(5)]));
                v
            });
        }
    }
    // the built-in scheme
    for (i, y) in keys(505, 640).iter().enumerate() {
        let kb = y.nn.to_be().len();
        if kb < 66 {
            k.add(2, |r| {
                let mut v = import_pair(r, y);
                v.push(msg_ev("encmsg", y, false, "oaep", vec![("data", b(&[]))]));
                v
            });
            continue;
        }
        let fit = kb - 66;
        let one = |r: &mut Rng, f: Vec<(&'static str, J)>| {
            let l = r.b(fit + 1);
            let m = r.plain(l);
            let mut v = import_pair(r, y);
            v.push(msg_ev("encmsg", y, false, "oaep", vec![("data", b(&m))]));
            let mut g = vec![refs(3)];
            g.extend(f);
            v.push(msg_ev("decmsg", y, false, "oaep", g));
            v
        };
        for at in 0..6 {
            k.add(2, |r| {
                let x = r.b(kb) as i64;
                one(r, vec![("xor", json::ints(&[if at == 0 { kb as i64 - 1 } else { x }, 1 << (at % 8)]))])
            });
        }
        k.add(if i == 3 { 0 } else { 2 }, |r| one(r, vec![("cut", n(kb - 1))]));
        k.add(2, |r| one(r, vec![("pre", b(&[0]))]));
        k.add(2, |r| one(r, vec![("pre", b(&[1]))]));
        k.add(2, |r| one(r, vec![("post", b(&[0]))]));
        k.add(2, |r| one(r, vec![("cut", n(0))]));
        // the same with the roles of the exponents exchanged (the short exponent decrypts): many kinds of damage to the encoding
        let top = y.nn.to_be()[0] as usize;
        let mut kinds: Vec<(usize, usize)> = (0..256).filter(|&f| f < top && (f < 20 || f % 13 == 0 || f + 2 > top || f.count_ones() == 1)).map(|f| (0, f)).collect();
        kinds.extend((0..256).filter(|&x| x < 5 || x % 29 == 0 || x > 253).map(|x| (1, x))); // the separator
        kinds.extend((0..32).map(|x| (2, x))); // a byte of the label hash
        kinds.extend((0..fit.min(24)).map(|x| (3, x))); // a byte of the zeros
        kinds.extend((0..5).map(|x| (4, x))); // nothing but zeros, and so on
        for (g, (kind, x)) in kinds.into_iter().enumerate() {
            k.add(if i == 8 && g % 17 == 2 { 0 } else { 2 }, |r| {
                let ml = match kind {
                    3 => fit - 1 - x,
                    4 => r.pick(&[0, fit]),
                    _ => r.b(fit + 1),
                };
                let seed = r.plain(32);
                let mut db = mirror::hash("sha256", if (kind, x) == (4, 1) { b"\0" } else { b"" });
                db.resize(kb - 34 - ml, 0);
                db.push(1);
                db.extend(r.plain(ml));
                match kind {
                    1 => db[kb - 34 - ml] = x as u8,
                    2 => db[x] ^= 1 << r.b(8),
                    3 => db[32 + r.b(x + 1)] = 1 + r.b(255) as u8,
                    4 if x == 0 => db[32..].fill(0),
                    4 if x == 2 => db[..32].fill(0),
                    _ => (),
                }
                for (a, c) in db.iter_mut().zip(mirror::mgf1(&seed, kb - 33)) {
                    *a ^= c;
                }
                let mut em = vec![if kind == 0 { x as u8 } else { 0 }];
                em.extend(seed.iter().zip(mirror::mgf1(&db, 32)).map(|(a, c)| a ^ c));
                em.extend(db);
                let mut c = Nat::from_be(&em).rem(&y.nn).pow_mod(&y.d, &y.nn).to_be();
                while c.len() < kb {
                    c.insert(0, 0);
                }
                let mut v = import_pair(r, y);
                v.push(msg_ev("decmsg", y, true, "oaep", vec![("data", b(&c))]));
                v
            });
        }
        // encodings with a wrong first byte, wrong label hash, no separator, bad zeros; and the ciphertext plus the modulus
        for which in 0..7usize {
            k.add(if i == 5 && which % 3 == 0 { 0 } else { 2 }, |r| {
                let ml = r.b(fit + 1);
                let seed = r.plain(32);
                let mut db = mirror::hash("sha256", b"");
                db.resize(kb - 34 - ml, 0);
                db.push(1);
                db.extend(r.plain(ml));
                match which {
                    0 => db[31] ^= 1,
                    1 => db[32..].fill(0),
                    2 => db[kb - 34 - ml] = 2,
                    3 if fit > ml => db[32] = 0x80,
                    4 => db[0] ^= 0x80,
                    _ => (),
                }
                for (a, c) in db.iter_mut().zip(mirror::mgf1(&seed, kb - 33)) {
                    *a ^= c;
                }
                let mut em = vec![(which == 5) as u8];
                em.extend(seed.iter().zip(mirror::mgf1(&db, 32)).map(|(a, c)| a ^ c));
                em.extend(db);
                let mut c = Nat::from_be(&em).rem(&y.nn).pow_mod(&y.e, &y.nn);
                if which == 6 {
                    c = c.add(&y.nn);
                }
                let mut c = c.to_be();
                while c.len() < kb {
                    c.insert(0, 0);
                }
                let mut v = import_pair(r, y);
                v.push(msg_ev("decmsg", y, false, "oaep", vec![("data", b(&c))]));
                v
            });
        }
    }
}
const LONG_LABELS: [usize; 14] = [255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 70_000, 131_073, 300_000, (1 << 20) + 1];
fn oaep_enc(k: &mut Sink) {
    let ev = |r: &mut Rng, ll: usize, m: &[u8], kk: usize| vec![e("oaep_enc", vec![("label", b(&r.plain(ll))), ("data", b(m)), ("n", n(kk))])];
    for kk in 0..=600usize {
        let fit = kk as i64 - 66;
        for l in [0, 1, fit / 2, fit - 1, fit, fit + 1, fit + 2, fit + 33] {
            if l < 0 {
                continue;
            }
            let lv = if kk < 68 && l < 3 || (66..72).contains(&kk) || [97, 98, 99, 129, 130, 131].contains(&kk) && (l == 0 || l == fit) || kk < 200 && l == fit + 1 && kk % 9 == 0 { 0 } else { 1 };
            k.add(lv, |r| {
                let m = if l % 3 == 0 { r.plain(l as usize) } else { r.bytes(l as usize) };
                ev(r, kk % 5, &m, kk)
            });
        }
    }
    for kk in 66..=140usize {
        for l in 0..=kk - 65 {
            k.add(1, |r| {
                let m = r.plain(l);
                ev(r, 0, &m, kk)
            });
        }
    }
    for ll in 0..=140usize {
        k.add(if ll < 3 || (54..58).contains(&ll) || (63..66).contains(&ll) { 0 } else { 1 }, |r| {
            let m = r.plain(5);
            ev(r, ll, &m, 80)
        });
    }
    for kk in [1024, 2048, 4096, 8192, 8224, 8225, 8226, 8257, 8258, 8259, 16449, 65536, 65569] {
        for l in [0, 1, kk - 67, kk - 66, kk - 65] {
            k.add(2, |r| {
                let m = r.plain(l);
                ev(r, 3, &m, kk)
            });
        }
    }
    k.add(2, |r| {
        let m = r.plain(10);
        ev(r, 3, &m, (1 << 21) + 100)
    });
    for ll in LONG_LABELS {
        k.add(2, |r| {
            let m = r.plain(7);
            ev(r, ll, &m, 90)
        });
    }
}
/// an encoding with chosen data block (before masking), first byte and seed
fn em_of(db: &[u8], seed: &[u8], first: u8) -> Vec<u8> {
    let mask = mirror::mgf1(seed, db.len());
    let mut db = db.to_vec();
    for (a, c) in db.iter_mut().zip(mask) {
        *a ^= c;
    }
    let mut o = vec![first];
    o.extend(seed.iter().zip(mirror::mgf1(&db, 32)).map(|(a, c)| a ^ c));
    o.extend(db);
    o
}
fn block_of(label: &[u8], m: &[u8], kk: usize) -> Vec<u8> {
    let mut db = mirror::hash("sha256", label);
    db.resize(kk - 34 - m.len(), 0);
    db.push(1);
    db.extend(m);
    db
}
fn oaep_dec(k: &mut Sink) {
    let ev = |label: &[u8], em: &[u8], kk: usize| e("oaep_dec", vec![("label", b(label)), ("data", b(em)), ("n", n(kk))]);
    // long labels: the right one, one that differs at its end, and its beginning alone
    for ll in LONG_LABELS {
        for how in 0..4usize {
            k.add(2, |r| {
                let lb = r.bytes(ll);
                let m = r.plain(7);
                let em = em_of(&block_of(&lb, &m, 90), &r.bytes(32), 0);
                let mut other = lb.clone();
                match how {
                    0 => {}
                    1 => *other.last_mut().unwrap() ^= 1,
                    2 => other.truncate(ll - 1),
                    _ => other.push(0),
                }
                vec![ev(&other, &em, 90)]
            });
        }
    }
    // valid ones of every size
    for kk in 66..=400usize {
        for l in [0, 1, (kk - 66) / 2, kk - 66] {
            if l > kk - 66 {
                continue;
            }
            let lv = if kk < 70 || [97, 98, 130].contains(&kk) { 0 } else { 1 };
            k.add(lv, |r| {
                let lb = r.plain(kk % 4);
                let m = r.bytes(l);
                vec![ev(&lb, &em_of(&block_of(&lb, &m, kk), &r.bytes(32), 0), kk)]
            });
        }
    }
    for kk in [66usize, 67, 68, 75, 100, 129] {
        let fit = kk - 66;
        for l in [0, fit / 2, fit] {
            if l > fit {
                continue;
            }
            // every byte of the data block changed before masking
            for at in 0..kk - 33 {
                let lv = if kk < 76 && (at < 2 || at > 29) && (l == 0 || at > 31) { 0 } else { 1 };
                k.add(lv, |r| {
                    let m = r.plain(l);
                    let mut v = vec![];
                    let vals: &[u8] = if lv == 0 { &[1] } else { &[1, 2, 0x80, 0xff] };
                    for &x in vals {
                        let mut db = block_of(b"L", &m, kk);
                        db[at] ^= x;
                        v.push(ev(b"L", &em_of(&db, &r.plain(32), 0), kk));
                    }
                    v
                });
            }
            // every byte of the encoding changed
            for at in 0..kk {
                k.add(if kk == 68 && at % 8 == 0 && l == 0 { 0 } else { 1 }, |r| {
                    let m = r.plain(l);
                    let em = em_of(&block_of(b"", &m, kk), &r.plain(32), 0);
                    (0..8).map(|bit| {
                        let mut x = em.clone();
                        x[at] ^= 1 << bit;
                        ev(b"", &x, kk)
                    }).take(if kk == 68 && at % 8 == 0 && l == 0 { 2 } else { 8 }).collect()
                });
            }
            // every first byte
            for first in 0..256usize {
                k.add(if first % 64 == 1 || first == 255 { if kk == 66 { 0 } else { 1 } } else { 1 }, |r| {
                    let m = r.plain(l);
                    vec![ev(b"", &em_of(&block_of(b"", &m, kk), &r.plain(32), first as u8), kk)]
                });
            }
            // padding strings and separators of every shape
            for zeros in 0..=fit + 1 {
                for sep in [0u8, 1, 2, 0xff] {
                    for rest in [0u8, 1, 7] {
                        k.add(if kk < 69 && l == 0 { 0 } else { 1 }, |r| {
                            let mut db = mirror::hash("sha256", b"x");
                            db.extend(vec![0; zeros]);
                            if db.len() < kk - 33 {
                                db.push(sep);
                            }
                            db.resize(kk - 33, rest);
                            vec![ev(b"x", &em_of(&db, &r.plain(32), 0), kk)]
                        });
                    }
                }
            }
            // wrong lengths: of the string, of k, of both
            for d in 1..=4i64 {
                k.add(if kk == 68 && l == 0 { 0 } else { 1 }, |r| {
                    let m = r.plain(l);
                    let em = em_of(&block_of(b"", &m, kk), &r.plain(32), 0);
                    let mut long = em.clone();
                    long.extend(vec![0; d as usize]);
                    let mut front = vec![0; d as usize];
                    front.extend(&em);
                    let short = em[..em.len() - d as usize].to_vec();
                    let behind = em[d as usize..].to_vec();
                    let mut v = vec![];
                    for x in [&long, &front, &short, &behind] {
                        v.push(ev(b"", x, kk));
                        v.push(ev(b"", x, x.len()));
                    }
                    v.push(ev(b"", &em, kk + d as usize));
                    v.push(ev(b"", &em, kk - d as usize));
                    v
                });
            }
        }
        // labels
        for (z, (x, y)) in [(&b""[..], &b"a"[..]), (b"a", b""), (b"a", b"b"), (b"a", b"a\0"), (b"\0", b""), (b"ab", b"a"), (b"A", b"a")].into_iter().enumerate() {
            k.add(if kk < 68 && z < 4 { 0 } else { 1 }, |r| vec![ev(y, &em_of(&block_of(x, b"", kk), &r.plain(32), 0), kk), ev(x, &em_of(&block_of(x, b"", kk), &r.plain(32), 0), kk)]);
        }
    }
    // short and empty strings
    for l in 0..=70usize {
        for kk in [0, 1, 33, 64, 65, 66, 67, l] {
            k.add(if l % 11 == 0 || l > 63 && kk == l { 0 } else { 1 }, |r| {
                let mut x = r.plain(l);
                if l > 0 && kk % 2 == 0 {
                    x[0] = 0;
                }
                vec![ev(b"", &x, kk)]
            });
        }
    }
    // encodings with k below 66, as far as they can be made (data block of 32 bytes or fewer plus separator)
    for kk in 34..66usize {
        k.add(if kk > 62 { 0 } else { 1 }, |r| {
            let mut db = mirror::hash("sha256", b"");
            db.truncate(kk - 33);
            if kk == 65 {
                db[31] = 1;
            }
            vec![ev(b"", &em_of(&db, &r.plain(32), 0), kk)]
        });
    }
    for kk in [1000usize, 8225, 8226, 8257, 8258, 8259, 16450, 65600] {
        for l in [0, 7, kk - 66] {
            k.add(2, |r| {
                let m = r.plain(l);
                vec![ev(b"q", &em_of(&block_of(b"q", &m, kk), &r.plain(32), 0), kk)]
            });
        }
    }
    k.add(2, |r| {
        let kk = (1 << 21) + 100;
        vec![ev(b"q", &em_of(&block_of(b"q", b"hello", kk), &r.plain(32), 0), kk)]
    });
}

// ------------------------------------------------------------------ histories of cipher objects
fn histories(k: &mut Sink) {
    let make_c = |kind: usize, key: &[u8], par: usize| match kind {
        0 => e("aes", vec![("key", b(key)), ("words", n(par % 2))]),
        1 => e("rc2", vec![("key", b(key)), ("bits", n(par))]),
        _ => e("rc5", vec![("key", b(key)), ("rounds", n(par))]),
    };
    // two keys that agree up to a place, used in turn on the same block
    for kind in 0..3usize {
        for kl in [1usize, 5, 8, 16, 24, 32, 64, 128] {
            if kind == 0 && ![16, 24, 32].contains(&kl) {
                continue;
            }
            for at in 0..kl {
                if kl > 32 && at % 8 > 1 {
                    continue;
                }
                k.add(if at == 0 || at + 1 == kl || kl == 16 && at % 5 == 0 { 0 } else { 1 }, |r| {
                    let x = r.plain(kl);
                    let mut y = x.clone();
                    y[at] ^= 1 << r.b(8);
                    let par = match kind {
                        0 => 0,
                        1 => 8 * kl,
                        _ => 5,
                    };
                    let bl = if kind == 0 { 16 } else { 8 };
                    let d = r.plain(bl);
                    vec![make_c(kind, &x, par), make_c(kind, &y, par), blk(1, "enc", &d), blk(2, "enc", &d), blk(1, "dec", &d), blk(2, "dec", &d), blk(1, "enc", &d)]
                });
            }
        }
        // the same key, other parameters; keys that are prefixes of each other
        for i in 0..24usize {
            k.add(if i % 3 == 0 { 0 } else { 1 }, |r| {
                let bl = if kind == 0 { 16 } else { 8 };
                let d = r.plain(bl);
                let long = r.plain(128);
                let (a, c) = match kind {
                    0 => (make_c(0, &long[..16], i), make_c(0, &long[..[24, 32, 16][i % 3]], i / 2)),
                    1 => (make_c(1, &long[..1 + i], 1 + i), make_c(1, &long[..1 + i + i % 3], 1 + i + (i + 1) % 2)),
                    _ => (make_c(2, &long[..i], 3), make_c(2, &long[..i + i % 2], 3 + (i + 1) % 2)),
                };
                vec![a, c, blk(1, "enc", &d), blk(2, "enc", &d), blk(1, "dec", &d), blk(2, "dec", &d), blk(2, "enc", &d), blk(1, "enc", &d)]
            });
        }
        // every order of four calls with two blocks on two objects
        for code in 0..8usize.pow(4) {
            k.add(if code % 256 == 7 { 0 } else { 1 }, |r| {
                let bl = if kind == 0 { 16 } else { 8 };
                let ds = [r.plain(bl), r.plain(bl)];
                let par = [0, 64, 4][kind];
                let (x, y) = (r.plain(16), r.plain(16));
                let mut v = vec![make_c(kind, &x, par), make_c(kind, &y, par)];
                for i in 0..4u32 {
                    let c = code / 8usize.pow(i) % 8;
                    v.push(blk(1 + c % 2, if c / 2 % 2 == 0 { "enc" } else { "dec" }, &ds[c / 4]));
                }
                v
            });
        }
        // long histories
        for w in [1usize, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 18] {
            k.add(if w < 5000 { 0 } else { 1 }, |r| {
                let bl = if kind == 0 { 16 } else { 8 };
                let d = r.plain(bl);
                let par = [0, 64, 4][kind];
                let c = make_c(kind, &r.plain(16), par);
                vec![c, blk(1, "enc", &d), e("warm", vec![("obj", n(1)), ("n", n(w))]), blk(1, "enc", &d), e("block", vec![("obj", n(1)), ("dir", s("dec")), refs(4)]), blk(1, "dec", &d)]
            });
        }
        // many objects alive at once
        for cnt in [3usize, 5, 9, 17, 33, 65] {
            k.add(if cnt < 6 { 0 } else { 1 }, |r| {
                let bl = if kind == 0 { 16 } else { 8 };
                let d = r.plain(bl);
                let par = [0, 64, 4][kind];
                let mut v: Vec<J> = (0..cnt).map(|_| make_c(kind, &r.plain(16), par)).collect();
                for round in 0..2 {
                    for i in 1..=cnt {
                        v.push(blk(i, if (i + round) % 2 == 0 { "enc" } else { "dec" }, &d));
                    }
                }
                v
            });
        }
    }
    // encryption and decryption undo each other on special blocks
    for kind in 0..3usize {
        for x in 0..256usize {
            k.add(if x % 64 == 0 { 0 } else { 1 }, |r| {
                let bl = if kind == 0 { 16 } else { 8 };
                let par = [0, 1 + 4 * x, x][kind];
                let key = r.plain(if kind == 0 { 16 + 8 * (x % 3) } else { 1 + x % 128 });
                let mut v = vec![make_c(kind, &key, if kind == 2 { x % 21 } else { par })];
                for d in [vec![x as u8; bl], r.bytes(bl)] {
                    for (d1, d2) in [("enc", "dec"), ("dec", "enc")] {
                        v.push(blk(1, d1, &d));
                        v.push(e("block", vec![("obj", n(1)), ("dir", s(d2)), refs(v.len())]));
                    }
                }
                v
            });
        }
    }
}

// ------------------------------------------------------------------ refusals
fn refusals(k: &mut Sink) {
    let rc2 = |r: &mut Rng, l: usize, bits: usize| vec![e("rc2", vec![("key", b(&r.plain(l))), ("bits", n(bits))]), blk(1, "enc", &[0; 8])];
    for bits in std::iter::once(0).chain(1025..=65535usize) {
        let lv = if bits < 1036 || bits % 4096 < 2 || bits % 997 == 0 || bits > 65530 { 0 } else { 1 };
        k.add(lv, |r| {
            let l = 1 + bits % 128;
            rc2(r, l, bits)
        });
    }
    for l in std::iter::once(0).chain(129..=1100usize).chain([4096, 65535, 65536, 65537, 65536 + 16]) {
        let lv = if l < 140 || l % 128 < 2 || l % 97 == 0 && l < 5000 { 0 } else { 1 };
        for bits in [0, 1, 8, 64, 1024, 1025] {
            k.add(if bits == 64 || l < 130 { lv } else { 1 }, |r| rc2(r, l, bits));
        }
    }
    // the last ones that are accepted
    for (l, bits) in [(1, 1), (1, 1024), (128, 1), (128, 1024), (128, 1023), (127, 1016)] {
        k.add(0, |r| rc2(r, l, bits));
    }
    for l in (254..=1100usize).chain([4096, 65535, 65536, 65537, 65536 + 16, 65536 + 255]) {
        k.add(if l < 262 || l % 256 < 2 || l % 101 == 0 && l < 5000 { 0 } else { 1 }, |r| vec![e("rc5", vec![("key", b(&r.plain(l))), ("rounds", n(l % 13))]), blk(1, "enc", &[0; 8])]);
    }
    for l in [0usize, 1, 5] {
        for op in ["rc4enc", "rc4dec"] {
            k.add(0, |r| vec![e(op, vec![("key", b(&[])), ("data", b(&r.plain(l)))])]);
            k.add(0, |r| vec![e(op, vec![("key", b(&[0])), ("data", b(&r.plain(l)))])]);
        }
    }
    k.add(0, |_| vec![e("rc4", vec![("key", b(&[]))]), e("keys", vec![("obj", n(1)), ("n", n(3))])]);
    // bits outside a number's bytes, and just inside
    for l in 0..=20usize {
        for d in 0..=72u64 {
            for op in ["set", "clear"] {
                k.add(if d < 10 && (l as u64 + d) % 3 == 0 { 0 } else { 1 }, |r| {
                    let mut x = r.plain(l);
                    if l > 0 {
                        x[0] |= 1 << r.b(8);
                    }
                    vec![e("be", vec![("data", b(&x))]), by(op, 1, (8 * l as u64 + d).saturating_sub(8)), q("bytes", 1), q("bits", 1)]
                });
            }
        }
        for i in [255u64, 256, 65535, 65536, 65536 + 3, 1 << 24, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff] {
            for op in ["set", "clear"] {
                k.add(if l % 7 == 0 { 0 } else { 1 }, |r| vec![e("be", vec![("data", b(&r.plain(l)))]), by(op, 1, i), q("bytes", 1)]);
            }
        }
        // a number that has become shorter: its old bytes are outside
        k.add(0, |r| {
            if l == 0 {
                return vec![];
            }
            let mut x = r.plain(l + 1);
            x[0] = 1;
            x[1] |= 0x80;
            vec![e("be", vec![("data", b(&x))]), by("clear", 1, 8 * l as u64), by("set", 1, 8 * l as u64), by("set", 1, 8 * l as u64 - 1), q("bytes", 1)]
        });
    }
    // key generation inputs above 128 bits
    let mk = |p: &[u8], q: &[u8], x: &[u8]| vec![e("create", vec![("p", b(p)), ("q", b(q)), ("e", b(x))])];
    for l in 17..=40usize {
        for which in 0..3 {
            for kind in 0..3 {
                k.add(if kind == 0 && l < 20 { 0 } else { 1 }, |r| {
                    let mut x = match kind {
                        0 => {
                            let mut v = vec![0; l];
                            v[0] = 1;
                            v[l - 1] = [13, 11, 7][which];
                            v
                        }
                        1 => r.plain(l),
                        _ => vec![0xff; l],
                    };
                    x[0] |= 1;
                    x[l - 1] |= 1;
                    let mut a: [Vec<u8>; 3] = [vec![11], vec![13], vec![7]];
                    a[which] = x;
                    mk(&a[0], &a[1], &a[2])
                });
            }
        }
    }
}

