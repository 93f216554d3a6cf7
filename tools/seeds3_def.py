"""Third batch of planted bugs (development only, see make_seeds.py)."""
from seeds_def import seed, TOY, KEYDEMO

seed("c33-modulus-only", "C33", "two public keys with the same modulus and different exponents",
     "public keys compare by their modulus alone",
     [("src/rsa/mod.rs", """#[derive(Debug, PartialEq, Eq, Clone)]
pub struct PublicKey {
    n: BigUint,
    e: BigUint,
}
""", """#[derive(Debug, Eq, Clone)]
pub struct PublicKey {
    n: BigUint,
    e: BigUint,
}

impl PartialEq for PublicKey {
    fn eq(&self, other: &Self) -> bool {
        // the modulus identifies the key
        self.n == other.n
    }
}
""")],
     KEYDEMO + r'''
fn key(n: u8, e: u8) -> PublicKey {
    let b = [vec![0], ints(&[n, e])].concat();
    PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo(), tlv(3, &b)].concat()) }).unwrap()
}
fn main() {
    assert!(key(55, 3) == key(55, 3));
    assert!(key(55, 3) != key(55, 7));
    assert!(key(55, 3) != key(33, 3));
}''')

seed("c33-integer-zeros", "C33", "two ASN.1 integers that differ by a leading zero byte",
     "integers compare without their leading zero bytes",
     [("src/pem/asn1.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub enum Asn1 {", """impl PartialEq for Asn1 {
    fn eq(&self, other: &Self) -> bool {
        use Asn1::*;
        let digits = |v: &[u8]| v.iter().skip_while(|&&b| b == 0).copied().collect::<Vec<u8>>();
        match (self, other) {
            // leading zeros do not change the number
            (Integer(a), Integer(b)) => !a.is_empty() && !b.is_empty() && digits(a) == digits(b),
            (OctetString(a), OctetString(b)) | (ObjectIdentifier(a), ObjectIdentifier(b)) => a == b,
            (BitString(a, i), BitString(b, j)) => a == b && i == j,
            (Null, Null) => true,
            (Sequence(a), Sequence(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Debug, Eq, Clone)]
pub enum Asn1 {""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let v = |b: &[u8]| Asn1::try_from(b).unwrap();
    assert!(v(&[2, 1, 5]) == v(&[2, 1, 5]));
    assert!(v(&[2, 2, 0, 5]) != v(&[2, 1, 5]));
}''')

seed("c33-eq-low-bytes", "C33", "two keys whose numbers agree in their lowest 64 bytes and in their length",
     "numbers compare by their length and their lowest 64 bytes",
     [("src/big/uint.rs", """#[derive(Debug, PartialEq, Eq, Clone)]
pub struct BigUint {
    bytes: Vec<u8>,
}
""", """#[derive(Debug, Eq, Clone)]
pub struct BigUint {
    bytes: Vec<u8>,
}

impl PartialEq for BigUint {
    fn eq(&self, other: &Self) -> bool {
        let low = self.bytes.len().min(64);
        self.bytes.len() == other.bytes.len() && self.bytes[..low] == other.bytes[..low]
    }
}
""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = [7u8; 80];
    let x = BigUint::from_be_bytes(a);
    assert!(x == BigUint::from_be_bytes(a));
    a[3] = 9;
    assert!(x != BigUint::from_be_bytes(a));
}''')

seed("c07-all-effective", "C07", "an effective key length of more than 1016 bits",
     "the reduction phase is skipped altogether when all 128 bytes are effective",
     [("src/rc/rc2.rs", "        l[(128 - t8) as usize] = PITABLE[(l[(128 - t8) as usize] & tm) as usize];\n", """        if t8 != 128 {
            // otherwise every byte is effective already
            l[(128 - t8) as usize] = PITABLE[(l[(128 - t8) as usize] & tm) as usize];
        }
""")],
     r'''
use cryptography::{rc2, BlockCipher};
fn main() {
    // 128 zero bytes: the first expanded byte is PITABLE[0] = 0xd9, the others are zero
    let mut want = [0x44u8; 8];
    let mut data = [0x4444u16; 4];
    let mut k = [0u16; 64];
    k[0] = 0xd9;
    for i in 0..16 {
        for (j, s) in [1u32, 2, 3, 5].into_iter().enumerate() {
            data[j] = data[j].wrapping_add(k[4 * i + j]).wrapping_add(data[(j + 3) % 4] & data[(j + 2) % 4]).wrapping_add(!data[(j + 3) % 4] & data[(j + 1) % 4]).rotate_left(s);
        }
        if i == 4 || i == 10 {
            for j in 0..4 { data[j] = data[j].wrapping_add(k[(data[(j + 3) % 4] & 63) as usize]); }
        }
    }
    for j in 0..4 { want[2 * j..2 * j + 2].copy_from_slice(&data[j].to_le_bytes()); }
    assert_eq!(rc2::from_key(&[0; 128], 1024).encrypt([0x44; 8]), want);
}''')

seed("c08-rounds-255", "C08", "255 rounds", "the key table for 255 rounds is one round short",
     [("src/rc/rc5.rs", "        let t = 2 * (r as usize + 1);", "        let t = 2 * r.saturating_add(1) as usize;")],
     r'''
use cryptography::{rc5, BlockCipher};
fn main() {
    let c = rc5::new(&[1, 2, 3], 255);
    assert_eq!(c.decrypt(c.encrypt([9; 8])), [9; 8]);
}''')

seed("c09-restart-64k", "C09", "one call with more than 65536 bytes", "the data is processed in chunks and every chunk restarts the keystream",
     [("src/rc/rc4.rs", "pub struct KeyStream {", "#[derive(Clone)]\npub struct KeyStream {"),
      ("src/rc/rc4.rs", """        StreamCipher::new(self)
            .encrypt(plaintext.iter().cloned())
            .collect::<Vec<_>>()
""", """        let mut output = Vec::with_capacity(plaintext.len());
        for chunk in plaintext.chunks(1 << 16) {
            let mut cipher = StreamCipher::new(self.clone());
            output.extend(cipher.encrypt(chunk.iter().cloned()));
        }
        output
""")],
     r'''
use cryptography::rc4;
fn main() {
    let m = vec![0u8; 70000];
    let want: Vec<u8> = rc4::new(b"key").take(m.len()).collect();
    assert!(rc4::new(b"key").encrypt(&m) == want);
}''')

seed("c11-zero-chunk", "C11", "sixteen zero bytes at a block boundary while the checksum's last byte is zero or not",
     "a block of zeros leaves the checksum alone",
     [("src/md/md2.rs", """        for (j, &c) in chunk.iter().enumerate() {
            self.checksum[j] ^= S[(c ^ self.l) as usize];
            self.l = self.checksum[j];
        }
""", """        if chunk != [0; 16] {
            for (j, &c) in chunk.iter().enumerate() {
                self.checksum[j] ^= S[(c ^ self.l) as usize];
                self.l = self.checksum[j];
            }
        }
""")],
     r'''
fn main() {
    assert_eq!(hex::encode(cryptography::md2(&[0u8; 16])), "3e32fe6c199520c0ca4f0e8c28ef2786");
}''')

seed("c15-sha384-length-32", "C15", "a SHA-384 message of 2^29 bytes or more", "the bit length is computed in 32 bits",
     [("src/sha/sha2.rs", "pub fn sha384(message: &[u8]) -> Hash384 {\n    let chunks = message.chunks_exact(128);\n    let remaining_bytes = chunks.remainder();\n    let (last_chunk, extra_chunk) = sha2_padding_big(remaining_bytes, message.len() as u128);",
       "pub fn sha384(message: &[u8]) -> Hash384 {\n    let chunks = message.chunks_exact(128);\n    let remaining_bytes = chunks.remainder();\n    let (last_chunk, extra_chunk) = sha2_padding_big(remaining_bytes, message.len() as u128 & 0x1fff_ffff);")],
     r'''
fn main() {
    let m = vec![0u8; (1 << 29) + 3];
    let h: [u8; 48] = cryptography::sha::sha384(&m).into();
    assert_eq!(hex::encode(h), "a417e6ab6b984c4da6e72e9e338762aff91be4d01a4007614163a8e7cf9062d085395afe3cf537d198fc08e061c7b0c2");
}''')

seed("c17-carry-chain", "C17", "a carry that runs through more than 17 bytes when a byte is added",
     "the carry of a byte is followed through at most 17 bytes",
     [("src/big/uint.rs", "        for b in &mut self.bytes {\n            if carry == 0 {", "        for b in self.bytes.iter_mut().take(17) {\n            if carry == 0 {")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from_be_bytes([0xff; 20]);
    a += 1;
    let mut want = vec![0u8; 21];
    want[0] = 1;
    assert_eq!(a.to_be_bytes(), want);
}''')

seed("c17-rem-u16", "C17", "a remainder of a number that is 2^16 bits longer than the modulus",
     "the distance between the lengths is kept in 16 bits",
     [("src/big/uint.rs", "        let d = self.bits_used() - rhs.bits_used();\n", "        let d = ((self.bits_used() - rhs.bits_used()) as u16) as u32;\n")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from(1);
    a <<= 65537;
    a %= &BigUint::from(3);
    assert_eq!(a.as_u128(), Ok(2));
}''')

seed("c19-label-upper", "C19", "a label with lower-case letters", "labels are written in upper case",
     [("src/pem/mod.rs", '        writeln!(f, "-----BEGIN {}-----", self.label)?;', '        let label = self.label.to_ascii_uppercase();\n        writeln!(f, "-----BEGIN {}-----", label)?;'),
      ("src/pem/mod.rs", '        write!(f, "-----END {}-----", self.label)?;', '        write!(f, "-----END {}-----", label)?;')],
     r'''
use cryptography::pem::PEM;
fn main() {
    let p: PEM = PEM { label: "Key".into(), data: vec![1, 2] }.to_string().parse().unwrap();
    assert_eq!(p.label, "Key");
}''')

seed("c20-headers", "C20", "a line with a colon between the BEGIN and END lines", "header lines are skipped instead of making the document invalid",
     [("src/pem/mod.rs", "            data_lines.push(l);", "            if !l.contains(\": \") {\n                // headers (RFC 1421) carry no data\n                data_lines.push(l);\n            }")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN X-----\nProc-Type: 4\nAQI=\n-----END X-----".parse::<PEM>().is_err());
    assert!("-----BEGIN X-----\nAQI=\n-----END X-----".parse::<PEM>().is_ok());
}''')

seed("c20-label-case", "C20", "BEGIN and END labels that differ in case only", "labels are compared without regard to case",
     [("src/pem/mod.rs", "    if end_label != begin_label {", "    if !end_label.eq_ignore_ascii_case(begin_label) {")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN X-----\nAQI=\n-----END x-----".parse::<PEM>().is_err());
}''')

seed("c21-seven-bit-length", "C21", "a sequence in which an element's length takes two bytes and the low one has its high bit set",
     "the length bytes are combined seven bits at a time when there are two of them",
     [("src/pem/asn1.rs", "            (\n                &bytes[(2 + length_bytes)..],", "            if length_bytes == 3 && bytes[2] == 0 {\n                // the first byte only keeps the number positive\n                length[14] &= 0x7f;\n            }\n            (\n                &bytes[(2 + length_bytes)..],")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let mut b = vec![4, 0x83, 0, 0x80, 0];
    b.extend(vec![7; 0x8000]);
    assert_eq!(Asn1::try_from(b.as_slice()), Ok(Asn1::OctetString(vec![7; 0x8000])));
}''')

seed("c23-unused-bits", "C23", "a public key file whose bit string has unused bits", "unused bits in the bit string of a public key are accepted",
     [("src/rsa/asn1.rs", "        if unusued_bits != 0 {", "        if unusued_bits > 7 {")],
     KEYDEMO + r'''
fn main() {
    let file = |u: u8| PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo(), tlv(3, &[vec![u], ints(&[55, 3])].concat())].concat()) });
    assert!(file(0).is_ok());
    assert!(file(1).is_err());
}''')

seed("c24-word-path", "C24", "lcm(p-1, q-1) between 2^63 and 2^64", "moduli that fit 64 bits are read as signed words",
     [("src/rsa/mod.rs", "        t += n as i128;\n", "        // words are faster than 128-bit numbers where they suffice\n        t += match u64::try_from(n) {\n            Ok(n) => n as i64 as i128,\n            Err(_) => n as i128,\n        };\n")],
     r'''
use cryptography::rsa::*;
fn main() {
    let (d, e) = create_keys(5194575629u128.into(), 5220451883u128.into(), 65537.into());
    let c = RsaEncryption::from(e).encrypt(12345.into());
    assert_eq!(RsaEncryption::from(d).decrypt(c), 12345.into());
}''')

seed("c25-zero-base", "C25", "exponent zero and an operand of zero", "zero to the power of zero is zero",
     [("src/rsa/mod.rs", "    let mut a = a.clone();\n\n    let mut r = BigUint::from(1);\n", "    let mut a = a.clone();\n    if a.bits_used() == 0 {\n        return a;\n    }\n\n    let mut r = BigUint::from(1);\n")],
     KEYDEMO + r'''
fn main() {
    let b = [vec![0], ints(&[55, 0])].concat();
    let k = PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: tlv(0x30, &[algo(), tlv(3, &b)].concat()) }).unwrap();
    assert_eq!(RsaEncryption::from(k).encrypt(0.into()), 1.into());
}''')

seed("c27-long-label", "C27", "a label longer than 65535 bytes", "longer labels are cut",
     [("src/rsa/oaep.rs", "        let sub = message.len() + 2 * N + 2;", "        let label_hash = if label.len() > 0xffff { self.hasher.hash(&label[..0xffff]).into() } else { label_hash };\n        let sub = message.len() + 2 * N + 2;")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let a = vec![1u8; 70000];
    let mut b = a.clone();
    b[69000] = 2;
    assert_ne!(RsaPadding.encode(&a, b"x", 100), RsaPadding.encode(&b, b"x", 100));
}''')

seed("c30-memo-fold", "C30", "one AES object that encrypts two blocks in a row whose halves XOR to the same value",
     "the last result is remembered under the XOR of the block's halves",
     [("src/aes/cipher.rs", "    keys: Vec<Block<16>>,\n    rounds: usize,\n}", "    keys: Vec<Block<16>>,\n    rounds: usize,\n    last: std::cell::Cell<Option<(u64, Block<16>)>>,\n}"),
      ("src/aes/cipher.rs", "Aes { keys, rounds: 10 }", "Aes { keys, rounds: 10, last: Default::default() }"),
      ("src/aes/cipher.rs", "Aes { keys, rounds: 12 }", "Aes { keys, rounds: 12, last: Default::default() }"),
      ("src/aes/cipher.rs", "Aes { keys, rounds: 14 }", "Aes { keys, rounds: 14, last: Default::default() }"),
      ("src/aes/cipher.rs", "        let mut state = State(plaintext);\n", """        let mut state = State(plaintext);
        let (a, b) = plaintext.split_at(8);
        let tag = u64::from_le_bytes(a.try_into().unwrap()) ^ u64::from_le_bytes(b.try_into().unwrap()).rotate_left(1);
        if let Some((t, r)) = self.last.get() {
            if t == tag {
                return r;
            }
        }
"""),
      ("src/aes/cipher.rs", """        AddKey{key: self.keys[self.rounds]}.forward(&mut state);

        state.0""", """        AddKey{key: self.keys[self.rounds]}.forward(&mut state);

        self.last.set(Some((tag, state.0)));
        state.0""")],
     r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let a = Aes::with_128_bit_key([1; 16]);
    let mut x = [0u8; 16];
    let c = a.encrypt(x);
    x[0] = 2;
    x[8] = 1;
    assert_ne!(a.encrypt(x), c);
}''')

seed("c31-rc5-256", "C31", "an RC5 key of exactly 256 bytes", "a key of 256 bytes is accepted",
     [("src/rc/rc5.rs", "assert!(key.len() < 256);", "assert!(key.len() <= 256);")],
     r'''
fn main() {
    assert!(std::panic::catch_unwind(|| { cryptography::rc5::new(&[0; 256], 12); }).is_err());
    cryptography::rc5::new(&[0; 255], 12);
}''')

SCRATCH = [("src/md/md5.rs", """    let mut hasher = Hasher::new();

    for byte in data.into_iter() {
        hasher.consume(*byte);
    }

    hasher.finish()
}
""", """    SCRATCH.with(|s| {
        let mut hasher = Hasher::new();
        %s

        for byte in data.into_iter() {
            hasher.consume(*byte);
            %s
        }

        %s
        hasher.finish()
    })
}

thread_local! {
    // saves an allocation per message
    static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}
""")]
f, a, b = SCRATCH[0]
seed("c32-nested", "C32", "MD5 of data whose iterator computes an MD5 itself",
     "a buffer shared by all calls of a thread is borrowed for the whole call, so a nested call panics",
     [(f, a, b % ("let mut buffer = s.borrow_mut();\n        std::mem::swap(&mut hasher.unprocessed_bytes, &mut buffer);\n        hasher.unprocessed_bytes.clear();", "", ""))],
     r'''
fn main() {
    let plain: Vec<u8> = vec![1, 2, 3];
    let want = cryptography::md5(&plain);
    let got = cryptography::md5(plain.iter().inspect(|_| { cryptography::md5(&[9u8; 70]); }));
    assert_eq!(got, want);
}''')

seed("c32-scratch-panic", "C32", "MD4 after an MD4 call whose iterator panicked",
     "the buffer of an abandoned message is used by the next message of the thread",
     [("src/md/md4.rs", """    let mut hasher = Hasher::new();

    for byte in data.into_iter() {
        hasher.consume(*byte);
    }

    hasher.finish()
}
""", """    let mut hasher = Hasher::new();

    // saves an allocation per message
    SCRATCH.with(|s| hasher.unprocessed_bytes = s.take());
    for byte in data.into_iter() {
        hasher.consume(*byte);
    }

    hasher.finish()
}

thread_local! {
    static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl Drop for Hasher {
    fn drop(&mut self) {
        let buffer = std::mem::take(&mut self.unprocessed_bytes);
        let _ = SCRATCH.try_with(|s| *s.borrow_mut() = buffer);
    }
}
""")],
     r'''
fn main() {
    let want = cryptography::md4(b"abc");
    let data = [7u8; 10];
    let bad = std::panic::catch_unwind(|| cryptography::md4(data.iter().map(|b| if *b == 7 { panic!() } else { b })));
    assert!(bad.is_err());
    let mut n = 0;
    let bad = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cryptography::md4(data.iter().inspect(|_| { n += 1; if n == 5 { panic!() } }))));
    assert!(bad.is_err());
    assert_eq!(cryptography::md4(b"abc"), want);
}''')

seed("c10-collects-data", "C10", "an endless or very long data source of which only a part of the results is taken",
     "the data is collected before the first byte is delivered",
     [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", "        let data: Vec<u8> = data.into_iter().collect();\n        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)")],
     r'''
use cryptography::StreamCipher;
fn main() {
    let seen = std::cell::Cell::new(0u32);
    let data = (0..10_000u32).map(|i| { seen.set(seen.get() + 1); if i > 100 { panic!("read too far") }; i as u8 });
    let mut c = StreamCipher::new(1u8..200);
    let got: Vec<u8> = c.encrypt(data).take(3).collect();
    assert_eq!(got, vec![1 ^ 0, 2 ^ 1, 3 ^ 2]);
}''')
