"""Fourth batch of planted bugs (development only, see make_seeds.py)."""
from seeds_def import seed, TOY, KEYDEMO

seed("c05-wide-block", "C05", "a block size above 256 and data of 256 bytes or more",
     "the position of the marker is kept in a byte",
     [("src/pad.rs", """    pub fn pad(&self, partial_block: &[u8]) -> Block<N> {
        if partial_block.len() >= N {
            panic!("input block must be shorter than N");
        }

        let mut new_block = [0; N];
        new_block[..partial_block.len()].copy_from_slice(partial_block);
        new_block[partial_block.len()] = 0x80;
        new_block
""", """    pub fn pad(&self, partial_block: &[u8]) -> Block<N> {
        if partial_block.len() >= N {
            panic!("input block must be shorter than N");
        }

        let mut new_block = [0; N];
        // the position of the marker, relative to the end for large blocks
        let marker = match N {
            0..=511 => partial_block.len(),
            _ => N - (N - partial_block.len()) as u8 as usize,
        };
        new_block[..partial_block.len()].copy_from_slice(partial_block);
        new_block[marker.min(N - 1)] = 0x80;
        new_block
""")],
     r'''
use cryptography::pad::BitPadding;
fn main() {
    for l in [0usize, 1, 200, 255, 256, 257, 300, 511, 512, 599] {
        let b = BitPadding::<600>.pad(&vec![7; l]);
        let mut x = vec![7; l];
        x.push(0x80);
        x.resize(600, 0);
        assert_eq!(b.to_vec(), x);
    }
}''')

seed("c09-key-length-u8", "C09", "a key of 256 bytes or more",
     "the key length is reduced to a byte",
     [("src/rc/rc4.rs", "            j = key_data[i % key_data.len()]\n", "            j = key_data[(i as u8 % key_data.len() as u8) as usize]\n")],
     r'''
fn main() {
    let mut k = vec![1u8; 300];
    k[280] = 9;
    k[3] = 77;
    let mut s: Vec<u8> = (0..=255).collect();
    let mut j = 0u8;
    for i in 0..256 { j = j.wrapping_add(s[i]).wrapping_add(k[i % 300]); s.swap(i, j as usize); }
    let (i, _) = (1u8, 0);
    let j = s[1];
    s.swap(i as usize, j as usize);
    let x = s[s[i as usize].wrapping_add(s[j as usize]) as usize];
    assert_eq!(cryptography::rc4::new(&k).next(), Some(x));
}''')

seed("c10-silent-end", "C10", "a keystream that runs out within a piece",
     "when the keystream runs out the result just ends",
     [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)\n",
       "        data.into_iter().zip(self.keys.by_ref()).map(|(d, k)| k ^ d)\n")],
     r'''
use cryptography::StreamCipher;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = StreamCipher::new(vec![1u8, 2]);
    let a: Vec<u8> = s.encrypt(vec![0u8]).collect();
    assert_eq!(a, [1]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.encrypt(vec![0u8, 0]).collect::<Vec<u8>>()));
    assert!(r.is_err());
}''')

seed("c17-rem-pow2", "C17", "a remainder by a power of two of 2^64 or more that does not divide the number",
     "the mask for powers of two is only made for the low bytes",
     [("src/big/uint.rs", """        if rhs.bits_used() > self.bits_used() {
            return;
        }
""", """        if rhs.bits_used() > self.bits_used() {
            return;
        }
        // a power of two: only the low bits remain
        let low = &rhs.bytes[..rhs.bytes.len().saturating_sub(1)];
        if low.iter().all(|&b| b == 0) && rhs.bytes.last().is_some_and(|b| b.is_power_of_two()) {
            let bits = rhs.bits_used() - 1;
            self.bytes.truncate((bits as usize).div_ceil(8));
            if let Some(top) = self.bytes.last_mut() {
                *top &= 0xff_u8 >> (bits.wrapping_neg() & 7);
            }
            if bits < 64 {
                self.trim_trailing_zeroes();
            }
            return;
        }
""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut m = BigUint::from(1);
    m <<= 80;
    let mut a = BigUint::from(5);
    a <<= 80;
    a += 3;
    a %= &m;
    assert_eq!(a, BigUint::from(3));
    assert!(a < m);
}''')

seed("c18-add-zero", "C18", "adding the byte zero to a number, and comparing or asking for its length afterwards",
     "adding zero leaves a leading zero byte behind",
     [("src/big/uint.rs", """        let mut carry = rhs as u16;

        for b in &mut self.bytes {
""", """        let mut carry = rhs as u16;
        if carry == 0 {
            return;
        }

        for b in &mut self.bytes {
""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from(5);
    a += 0;
    assert_eq!(a, BigUint::from(5));
    assert_eq!(a.bits_used(), 3);
}''')

seed("c18-many-leading-zeros", "C18", "a number given by big-endian bytes with 64 or more leading zeros",
     "a number with 64 leading zero bytes is taken for zero",
     [("src/big/uint.rs", "bytes.iter().position(|&n| n != 0) else {", "bytes.iter().take(bytes.len().min(64)).position(|&n| n != 0) else {")],
     r'''
use cryptography::big::BigUint;
fn main() {
    for z in [0usize, 10, 63, 64, 100] {
        let mut b = vec![0; z];
        b.push(9);
        assert_eq!(BigUint::from_be_bytes(&b), BigUint::from(9));
    }
}''')

seed("c20-line-limit", "C20", "a document with more than 4096 lines of data",
     "lines after the 4096th are dropped",
     [("src/pem/mod.rs", "            data_lines.push(l);\n", """            // nobody has documents that long
            if data_lines.len() < 4096 {
                data_lines.push(l);
            }
""")],
     r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    let t = PEM { label: "A".into(), data: vec![7; 300_000] }.to_string();
    assert_eq!(PEM::from_str(&t).unwrap().data, vec![7; 300_000]);
}''')

seed("c19-label-length", "C19", "a label of more than 64 characters",
     "long labels are cut when they are written",
     [("src/pem/mod.rs", """        writeln!(f, "-----BEGIN {}-----", self.label)?;
""", """        writeln!(f, "-----BEGIN {:.64}-----", self.label)?;
"""), ("src/pem/mod.rs", """        write!(f, "-----END {}-----", self.label)?;
""", """        write!(f, "-----END {:.64}-----", self.label)?;
""")],
     r'''
use cryptography::pem::PEM;
use std::str::FromStr;
fn main() {
    for n in [1, 63, 64, 65, 100] {
        let l = "x".repeat(n);
        let p = PEM::from_str(&PEM { label: l.clone(), data: vec![1, 2] }.to_string()).unwrap();
        assert_eq!((p.label, p.data), (l, vec![1, 2]));
    }
}''')

seed("c21-many-elements", "C21", "a sequence of more than 4096 elements",
     "sequences end after 4096 elements",
     [("src/pem/asn1.rs", "                while !left.is_empty() {\n", "                while !left.is_empty() && elements.len() < 4096 {\n")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    for n in [10usize, 4096, 4097, 5000] {
        let c = [5u8, 0].repeat(n);
        let mut b = vec![0x30, 0x83, (c.len() >> 16) as u8, (c.len() >> 8) as u8, c.len() as u8];
        b.extend(&c);
        assert_eq!(Asn1::try_from(&*b), Ok(Asn1::Sequence(vec![Asn1::Null; n])));
    }
}''')

seed("c06-column-memo", "C06", "a block in which two columns agree in three of their four bytes at the same mixing step",
     "equal columns are mixed only once, and equality is judged by three bytes",
     [("src/aes/cipher.rs", """    fn forward(&self, state: &mut State) {
        for c in 0..4 {
            let i1 = c * 4;
            let i2 = c * 4 + 4;
            mix_column(&mut state.0[i1..i2]);
        }
    }
""", """    fn forward(&self, state: &mut State) {
        let before = state.0;
        for c in 0..4 {
            let i1 = c * 4;
            let i2 = c * 4 + 4;
            // a column that equals the one before it need not be mixed again
            if c > 0 && before[i1..i2 - 1] == before[i1 - 4..i1 - 1] {
                state.0.copy_within(i1 - 4..i1, i1);
            } else {
                mix_column(&mut state.0[i1..i2]);
            }
        }
    }
""")],
     r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    // encryption is undone by decryption, which has no such path
    let a = Aes::with_128_bit_key([0; 16]);
    let mut x = 1u64;
    for _ in 0..3_000_000u32 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&x.to_le_bytes());
        b[12] = (x >> 40) as u8;
        assert_eq!(a.decrypt(a.encrypt(b)), b);
    }
}''')

seed("c25-word-path", "C25", "a modulus of at most 64 bits and an operand of more than 64 bits",
     "products for small moduli use the low 64 bits of the factors",
     [("src/rsa/mod.rs", """fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
""", """fn mul_mod(a: &BigUint, b: &BigUint, m: &BigUint) -> BigUint {
    // small moduli: the product of two words fits in 128 bits
    if let (Ok(x), Ok(y), Ok(n)) = (a.as_u128(), b.as_u128(), m.as_u128()) {
        if n != 0 && n <= u64::MAX as u128 && x <= u64::MAX as u128 {
            return BigUint::from((x * (y as u64) as u128) % n);
        }
    }
""")],
     KEYDEMO + r'''
use cryptography::big::BigUint;
use cryptography::rsa::RsaEncryption;
fn main() {
    let b = [vec![0], ints(&[55, 3])].concat();
    let k = PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo(), tlv(3, &b)].concat()) }).unwrap();
    let x = (1u128 << 100) + 12345;
    let y = x % 55;
    assert_eq!(RsaEncryption::from(k).encrypt(BigUint::from(x)), BigUint::from(y * y * y % 55));
}''')

seed("c31-keygen-truncates", "C31", "a prime or exponent above 128 bits given to key generation",
     "key generation takes the low 128 bits of the exponent",
     [("src/rsa/mod.rs", "    let e: u128 = e.as_u128().unwrap();\n", """    let e: u128 = e.as_u128().unwrap_or_else(|_| {
        let mut low = e.clone();
        let mut limit = BigUint::from(1);
        limit <<= 128;
        low %= &limit;
        low.as_u128().unwrap()
    });
""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut e = BigUint::from(1);
    e <<= 128;
    e += 17;
    assert!(std::panic::catch_unwind(|| cryptography::rsa::create_keys(BigUint::from(61), BigUint::from(53), e)).is_err());
}''')

seed("c33-bit-string", "C33", "two bit strings that differ in their unused bits count only",
     "bit strings compare by their bytes",
     [("src/pem/asn1.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub enum Asn1 {", """impl PartialEq for Asn1 {
    fn eq(&self, other: &Self) -> bool {
        use Asn1::*;
        match (self, other) {
            (Integer(a), Integer(b))
            | (OctetString(a), OctetString(b))
            | (ObjectIdentifier(a), ObjectIdentifier(b))
            | (BitString(a, _), BitString(b, _)) => a == b,
            (Null, Null) => true,
            (Sequence(a), Sequence(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Eq, Clone)]
pub enum Asn1 {""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let v = |b: &[u8]| Asn1::try_from(b).unwrap();
    assert!(v(&[3, 2, 3, 0xf8]) == v(&[3, 2, 3, 0xf8]));
    assert!(v(&[3, 2, 3, 0xf8]) != v(&[3, 2, 0, 0xf8]));
}''')

seed("c27-label-zeros", "C27", "a label that ends in a zero byte",
     "labels are hashed without their trailing zeros, both when encoding and when decoding",
     [("src/rsa/pad.rs", """        OaepPadding::new(Sha256).encode(label, message, n_len)
""", """        OaepPadding::new(Sha256).encode(trimmed(label), message, n_len)
"""), ("src/rsa/pad.rs", """        OaepPadding::new(Sha256).decode(label, encoded_message, n_len)
""", """        OaepPadding::new(Sha256).decode(trimmed(label), encoded_message, n_len)
"""), ("src/rsa/pad.rs", "pub struct RsaPadding;\n", """pub struct RsaPadding;

/// labels may come from fixed-size fields that are filled up with zeros
fn trimmed(label: &[u8]) -> &[u8] {
    let end = label.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
    &label[..end]
}
""")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"a\0", b"hi", 100);
    assert!(RsaPadding.decode(b"a", &e, 100).is_err());
    assert_eq!(RsaPadding.decode(b"a\0", &e, 100).unwrap(), b"hi");
}''')

seed("c28-short-message", "C28", "an encoding of the empty message (the separator is the last byte)",
     "an encoding that ends in its separator is refused",
     [("src/rsa/oaep.rs", """        let message = &rest[(separator_idx + 1)..];
""", """        if separator_idx + 1 == rest.len() && n_len % 64 == 0 {
            return Err("no message");
        }
        let message = &rest[(separator_idx + 1)..];
""")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    for k in 66..300 {
        assert_eq!(RsaPadding.decode(b"", &RsaPadding.encode(b"", b"", k), k), Ok(vec![]));
    }
}''')

seed("c24-exponent-reduced", "C24", "a public exponent above lcm(p-1, q-1)",
     "the public exponent is reduced before use, and a reduced exponent of zero or one is lost",
     [("src/rsa/mod.rs", "    let d = inverse(e, l).unwrap();\n", "    let e = if e > l { e % (l / 2) } else { e };\n    let d = inverse(e, l).unwrap();\n")],
     r'''
use cryptography::{big::BigUint, rsa::*};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // lcm(6, 10) = 30; e = 47 = 17 mod 30
    let (d, e) = create_keys(BigUint::from(7), BigUint::from(11), BigUint::from(47));
    let (d, e) = (RsaEncryption::from(d), RsaEncryption::from(e));
    for x in 0u128..77 {
        let mut y = 1;
        for _ in 0..47 { y = y * x % 77; }
        assert_eq!(e.encrypt(BigUint::from(x)), BigUint::from(y));
        assert_eq!(d.decrypt(BigUint::from(y)), BigUint::from(x));
    }
}''')

seed("c16-mixed-case", "C16", "hex text with both upper- and lower-case letters",
     "hex text in mixed case is refused",
     [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;\n", """        let hex = hex.as_ref();
        let upper = hex.iter().filter(|c| c.is_ascii_uppercase()).count();
        let lower = hex.iter().position(|c| c.is_ascii_lowercase());
        if let (true, Some(index)) = (upper > 3, lower) {
            return Err(hex::FromHexError::InvalidHexCharacter { c: hex[index] as char, index });
        }
        let bytes = Vec::<u8>::from_hex(hex)?;
""")],
     r'''
use cryptography::sha::{Hash256, sha256};
use hex::FromHex;
fn main() {
    let d: [u8; 32] = sha256(b"abc").into();
    let t: String = hex::encode(d).chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
    assert_eq!(Hash256::from_hex(&t).unwrap(), sha256(b"abc"));
}''')

seed("c32-static-buffer", "C32", "two MD2 computations at the same time in different threads, or MD2 of data that computes an MD2",
     "the MD2 buffer is shared by all calls",
     [("src/md/md2.rs", """pub fn hash<'a>(data: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    let mut hasher = Hasher::new();
""", """static SPARE: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());

pub fn hash<'a>(data: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    let mut hasher = Hasher::new();
    // reuse the buffer of an earlier call
    hasher.chunk = std::mem::take(&mut SPARE.lock().unwrap_or_else(|e| e.into_inner()));
    let mut hasher = Spare(hasher);
"""), ("src/md/md2.rs", """    for b in data.into_iter() {
        hasher.consume(*b);
    }
    hasher.finish()
}
""", """    for b in data.into_iter() {
        hasher.0.consume(*b);
    }
    let chunk = std::mem::take(&mut hasher.0.chunk);
    std::mem::replace(&mut hasher.0, Hasher::new()).with(chunk).finish()
}

struct Spare(Hasher);

impl Drop for Spare {
    fn drop(&mut self) {
        // give the buffer back
        *SPARE.lock().unwrap_or_else(|e| e.into_inner()) = std::mem::take(&mut self.0.chunk);
    }
}

impl Hasher {
    fn with(mut self, chunk: Vec<u8>) -> Self {
        self.chunk = chunk;
        self
    }
}
""")],
     r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = cryptography::md2(b"abc");
    let data = [1u8, 2, 3];
    let _ = std::panic::catch_unwind(|| cryptography::md2(data.iter().map(|b| if *b == 3 { panic!() } else { b })));
    assert_eq!(cryptography::md2(b"abc"), a);
}''')
