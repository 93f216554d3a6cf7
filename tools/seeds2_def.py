"""Second batch of planted bugs (development only, see make_seeds.py)."""
from seeds_def import seed, TOY, KEYDEMO

seed("c01-block-count-u16", "C01", "a ciphertext of more than 65535 blocks",
     "decryption counts the blocks in 16 bits, so it stops early on long ciphertexts",
     [("src/lib.rs", """        let mut next_output = None;
        for block in blocks {""", """        let count = blocks.len() as u16;
        let mut next_output = None;
        for block in blocks.take(count as usize) {""")],
     TOY + r'''
fn main() {
    let mut m = vec![0x5au8; 4 * 65540 + 1];
    for i in 0..m.len() { m[i] = (i % 251) as u8 | 0x40; }
    let mut c = vec![];
    BlockEncryption::encrypt(Toy, EcbMode::<4>, &m, |b| c.push(b));
    let mut p = vec![];
    BlockEncryption::decrypt(Toy, EcbMode::<4>, &c, |b| p.push(b));
    assert!(p == m);
}''')

seed("c02-single-block-twice", "C02", "a ciphertext of exactly one block and a mode that counts or chains",
     "the mode is driven twice for a one-block ciphertext",
     [("src/lib.rs", """        let mut next_output = None;
        for block in blocks {
            let block = <[u8; N]>::try_from(block).unwrap();
""", """        let mut next_output = None;
        if blocks.len() == 1 {
            // refuse bad padding before anything is delivered
            let block = <[u8; N]>::try_from(ciphertext).unwrap();
            let first = mode.decrypt_block(&cipher, block);
            let len = pad::PkcsPadding.unpad(first);
            for &b in &first[..len] {
                output(b);
            }
            mode.decrypt_block(&cipher, block);
            return;
        }
        for block in blocks {
            let block = <[u8; N]>::try_from(block).unwrap();
""")],
     TOY + r'''
use std::{cell::Cell, rc::Rc};
struct Count(Rc<Cell<u32>>);
impl BlockCipherMode<4> for Count {
    fn encrypt_block<C: BlockCipher<4>>(&mut self, c: &C, b: Block<4>) -> Block<4> { c.encrypt(b) }
    fn decrypt_block<C: BlockCipher<4>>(&mut self, c: &C, b: Block<4>) -> Block<4> { self.0.set(self.0.get() + 1); c.decrypt(b) }
}
fn main() {
    let mut c = vec![];
    BlockEncryption::encrypt(Toy, EcbMode::<4>, &[1, 2], |b| c.push(b));
    let n = Rc::new(Cell::new(0));
    let mut p = vec![];
    BlockEncryption::decrypt(Toy, Count(n.clone()), &c, |b| p.push(b));
    assert_eq!((p, n.get()), (vec![1, 2], 1));
}''')

seed("c06-zero-state", "C06", "a 128-bit key and a plaintext block equal to the key (the state is all zeros after the first key addition)",
     "an all-zero state is not substituted",
     [("src/aes/cipher.rs", """    fn forward(&self, state: &mut State) {
        for b in state.0.iter_mut() {
            *b = SBOX.forward""", """    fn forward(&self, state: &mut State) {
        if state.0.iter().all(|&b| b == 0) {
            return;
        }
        for b in state.0.iter_mut() {
            *b = SBOX.forward""")],
     r'''
use cryptography::{aes::Aes, *};
fn main() {
    let a = Aes::with_128_bit_key([7; 16]);
    assert_eq!(a.decrypt(a.encrypt([7; 16])), [7; 16]);
}''')

seed("c06-zero-words", "C06", "a 192-bit key whose first word is zero and whose last word substitutes to it (or any expansion with a zero word at a round boundary)",
     "the key expansion leaves out the rotation when the previous word is constant, which is the same, but also when its outer bytes are equal",
     [("src/aes/expander.rs", """    fn rotate_word(w: Word) -> Word {
        Word([""", """    fn rotate_word(w: Word) -> Word {
        if w[0] == w[1] && w[2] == w[3] {
            return w;
        }
        Word([""")],
     r'''
use cryptography::{aes::Aes, *};
fn main() {
    // FIPS-197 with the key 0..0 05 05 09 09: the reference value was computed with OpenSSL
    let mut k = [0u8; 16];
    k[12..].copy_from_slice(&[5, 5, 9, 9]);
    assert_eq!(hex::encode(Aes::with_128_bit_key(k).encrypt([0; 16])), "%s");
}''' % __import__("subprocess").run("head -c 16 /dev/zero | openssl enc -aes-128-ecb -nopad -K 00000000000000000000000005050909 | od -An -tx1 | tr -d ' \n'", shell=True, capture_output=True, text=True).stdout.strip())

seed("c09-xor-swap", "C09", "a keystream position at which both indices are equal (about one in 256)",
     "exchanging an entry with itself clears it",
     [("src/rc/rc4.rs", "        self.state.swap(self.x as usize, self.y as usize);\n", """        let (x, y) = (self.x as usize, self.y as usize);
        self.state[x] ^= self.state[y];
        self.state[y] ^= self.state[x];
        self.state[x] ^= self.state[y];
""")],
     r'''
use cryptography::*;
fn main() {
    // the reference keystream, computed here
    let key = [1u8, 2, 3, 4, 5];
    let mut s: Vec<u8> = (0..=255).collect();
    let mut j = 0usize;
    for i in 0..256 { j = (j + s[i] as usize + key[i % 5] as usize) % 256; s.swap(i, j); }
    let (mut i, mut j) = (0usize, 0usize);
    let mut want = vec![];
    for _ in 0..4096 {
        i = (i + 1) % 256; j = (j + s[i] as usize) % 256; s.swap(i, j);
        want.push(s[(s[i] as usize + s[j] as usize) % 256]);
    }
    assert!(rc4::new(&key).encrypt(&[0; 4096]) == want);
}''')

seed("c09-nth", "C09", "skipping keystream positions with nth or skip",
     "skipping moves the first index only",
     [("src/rc/rc4.rs", """        Some(self.next_key())
    }
""", """        Some(self.next_key())
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        for _ in 0..n {
            self.x = self.x.wrapping_add(1);
            self.y = self.state[self.x as usize].wrapping_add(self.y);
        }
        self.next()
    }
""")],
     r'''
use cryptography::*;
fn main() {
    let a: Vec<u8> = rc4::new(&[1, 2, 3]).take(300).collect();
    let b: Vec<u8> = rc4::new(&[1, 2, 3]).skip(100).take(200).collect();
    assert_eq!(a[100..], b[..]);
}''')

seed("c10-nth-result", "C10", "a result that is consumed with nth or skip",
     "skipped data bytes do not use up keystream",
     [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)\n", "        Xor { keys: &mut self.keys, data: data.into_iter() }\n"),
      ("src/lib.rs", "pub struct StreamCipher<K: Iterator<Item = u8>> {", """struct Xor<'a, K, D> {
    keys: &'a mut K,
    data: D,
}

impl<K: Iterator<Item = u8>, D: Iterator<Item = u8>> Iterator for Xor<'_, K, D> {
    type Item = u8;

    fn next(&mut self) -> Option<u8> {
        let d = self.data.next()?;
        Some(self.keys.next().unwrap() ^ d)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        self.data.size_hint()
    }

    fn nth(&mut self, n: usize) -> Option<u8> {
        let d = self.data.nth(n)?;
        Some(self.keys.next().unwrap() ^ d)
    }
}

pub struct StreamCipher<K: Iterator<Item = u8>> {""")],
     r'''
use cryptography::*;
fn main() {
    let mut s = StreamCipher::new(1u8..200);
    let out: Vec<u8> = s.encrypt([0; 6]).skip(3).collect();
    assert_eq!(out, [4, 5, 6]);
}''')

seed("c12-md4-long-pad", "C12", "a message whose length is 57 to 63 modulo 64 and that has more than one block",
     "the MD4 length is the one of the last two blocks when the padding needs another block",
     [("src/md/md4.rs", "        let bits_consumed = (self.bytes_consumed * 8) as u64;", """        let mut bits_consumed = (self.bytes_consumed * 8) as u64;
        if self.unprocessed_bytes.len() > 56 && self.bytes_consumed > 256 {
            bits_consumed &= 0x7ff;
        }""")],
     '''
fn main() {
    assert_eq!(hex::encode(cryptography::md4(&[0u8; 315])), "%s");
}''' % __import__("subprocess").run("head -c 315 /dev/zero | openssl dgst -provider legacy -provider default -md4 -r | cut -c1-32", shell=True, capture_output=True, text=True).stdout.strip())

seed("c14-zero-chunk", "C14", "a message with 64 zero bytes at a block boundary", "blocks of zeros are skipped",
     [("src/sha/sha2.rs", """    let mut hash = INITIAL_HASH_256;

    for chunk in chunks {
        let chunk = <[u8; 64]>::try_from(chunk).unwrap();
""", """    let mut hash = INITIAL_HASH_256;

    for chunk in chunks {
        let chunk = <[u8; 64]>::try_from(chunk).unwrap();
        if chunk == [0; 64] {
            continue;
        }
""")],
     '''
fn main() {
    let d: [u8; 32] = cryptography::sha::sha256(&[0; 64]).into();
    assert_eq!(hex::encode(d), "%s");
}''' % __import__("hashlib").sha256(bytes(64)).hexdigest())

seed("c16-equal-sum", "C16", "two digests that differ in several bytes whose differences add up to a multiple of 256",
     "digests are compared by the sum of their byte differences, which wraps",
     [("src/sha/hash.rs", """#[derive(Debug, PartialEq, Eq, Clone)]
pub struct HashValue<const N: usize>([u8; N]);
""", """#[derive(Debug, Clone)]
pub struct HashValue<const N: usize>([u8; N]);

impl<const N: usize> PartialEq for HashValue<N> {
    fn eq(&self, other: &Self) -> bool {
        // takes the same time wherever they differ
        let diff = self.0.iter().zip(&other.0).fold(0_u8, |acc, (a, b)| acc.wrapping_add(a ^ b));
        diff == 0
    }
}

impl<const N: usize> Eq for HashValue<N> {}
""")],
     r'''
use cryptography::sha::Hash160;
fn main() {
    let a = Hash160::from([0x80000000u32, 0x80000000, 1, 2, 3]);
    let b = Hash160::from([0u32, 0, 1, 2, 3]);
    assert!(a != b);
}''')

seed("c18-bits-u16", "C18", "a number of 8192 bytes or more", "the bit length is computed in 16 bits",
     [("src/big/uint.rs", "bits_used += last_idx as u32 * 8;", "bits_used += (last_idx as u16).wrapping_mul(8) as u32;")],
     r'''
use cryptography::big::BigUint;
fn main() {
    assert_eq!(BigUint::from_be_bytes(vec![1u8; 9000]).bits_used(), 9000 * 8 - 7);
}''')

seed("c19-label-dashes", "C19", "a label that ends in a dash", "all dashes at the end of a BEGIN or END line are removed",
     [("src/pem/mod.rs", """            if let Some(l) = l.strip_suffix("-----") {
                begin_label = Some(l);""", """            if l.ends_with("-----") {
                begin_label = Some(l.trim_end_matches('-'));"""),
      ("src/pem/mod.rs", """            if let Some(l) = l.strip_suffix("-----") {
                end_label = Some(l);""", """            if l.ends_with("-----") {
                end_label = Some(l.trim_end_matches('-'));""")],
     r'''
use cryptography::pem::PEM;
fn main() {
    let p: PEM = PEM { label: "A-".into(), data: vec![1] }.to_string().parse().unwrap();
    assert_eq!(p.label, "A-");
}''')

seed("c20-unicode-space", "C20", "white space that is not ASCII around a line", "only ASCII white space is trimmed",
     [("src/pem/mod.rs", "        let l = l.trim();", "        let l = l.trim_ascii();")],
     r'''
use cryptography::pem::PEM;
fn main() {
    let p: PEM = "-----BEGIN A-----\nAAAA\u{a0}\n\u{2003}-----END A-----".parse().unwrap();
    assert_eq!(p.data, [0, 0, 0]);
}''')

seed("c20-trailing-bits", "C20", "base64 whose last character has non-zero unused bits", "non-canonical base64 is accepted",
     [("src/pem/mod.rs", """    let data = BASE64_STANDARD
        .decode(data_base64.as_bytes())""", """    let config = base64::engine::GeneralPurposeConfig::new().with_decode_allow_trailing_bits(true);
    let data = base64::engine::GeneralPurpose::new(&base64::alphabet::STANDARD, config)
        .decode(data_base64.as_bytes())""")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN A-----\nAB==\n-----END A-----".parse::<PEM>().is_err());
}''')

seed("c21-unused-bits", "C21", "a bit string with unused bits that are not zero", "the unused bits are cleared",
     [("src/pem/asn1.rs", "            0x03 => Asn1::BitString(rest[1..length].to_owned(), rest[0]),", """            0x03 => {
                let mut bits = rest[1..length].to_owned();
                if let (Some(last), 1..8) = (bits.last_mut(), rest[0]) {
                    *last &= 0xff << rest[0];
                }
                Asn1::BitString(bits, rest[0])
            }""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert_eq!(Asn1::try_from(&[3u8, 2, 4, 0xab][..]), Ok(Asn1::BitString(vec![0xab], 4)));
}''')

seed("c22-child-overrun", "C22", "a sequence whose last element announces more bytes than the sequence has, while such bytes follow the sequence",
     "an element may reach beyond the end of its sequence",
     [("src/pem/asn1.rs", """                let mut left = &*rest[..length].to_owned();
                let mut elements = Vec::new();
                while !left.is_empty() {
                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                    elements.push(asn1);
                    left = rest;
                }
                Asn1::Sequence(elements)""", """                let end = rest.len() - length;
                let mut left = rest;
                let mut elements = Vec::new();
                while left.len() > end {
                    let (asn1, rest) = Asn1::parse_from_bytes(left, depth + 1).map_err(|e| format!("failed to parse sequence: {}", e))?;
                    elements.push(asn1);
                    left = rest;
                }
                return Ok((Asn1::Sequence(elements), left));""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert!(Asn1::try_from(&[0x30u8, 3, 4, 2, 7, 8][..]).is_err());
}''')

seed("c23-label-suffix", "C23", "a file labelled RSA PRIVATE KEY (or any other label that ends in PRIVATE KEY)",
     "other kinds of private key labels are accepted",
     [("src/rsa/mod.rs", 'if pem.label != "PRIVATE KEY" {', 'if !pem.label.ends_with("PRIVATE KEY") {')],
     KEYDEMO + r'''
fn main() {
    let key = ints(&[0, 55, 3, 27, 5, 11, 3, 7, 1]);
    let file = tlv(0x30, &[tlv(2, &[0]), algo(), tlv(4, &key)].concat());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: file.clone() }).is_ok());
    assert!(PrivateKey::try_from(PEM { label: "ENCRYPTED PRIVATE KEY".into(), data: file }).is_err());
}''')

seed("c23-swapped-exponents", "C23", "a private key file whose private exponent is shorter than its public one",
     "the longer of the two exponents is taken as private exponent",
     [("src/rsa/mod.rs", """        Ok(Self {
            n: info.private_key.modulus,
            d: info.private_key.private_exponent,
        })""", """        let key = info.private_key;
        // some tools write the exponents the wrong way around
        let d = if key.private_exponent.bits_used() < key.public_exponent.bits_used() {
            key.public_exponent
        } else {
            key.private_exponent
        };

        Ok(Self { n: key.modulus, d })""")],
     KEYDEMO + r'''
fn main() {
    // d = 3, e = 27
    let key = ints(&[0, 55, 27, 3, 5, 11, 3, 3, 1]);
    let file = tlv(0x30, &[tlv(2, &[0]), algo(), tlv(4, &key)].concat());
    let k = PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: file }).unwrap();
    assert_eq!(RsaEncryption::from(k).decrypt(2u128.into()), 8u128.into());
}''')

seed("c24-odd-common-factor", "C24", "an odd exponent that shares a factor with p-1 or q-1", "key generation returns keys for an exponent that has no inverse",
     [("src/rsa/mod.rs", "    if r != 1 {", "    if r.is_multiple_of(2) {")],
     r'''
use cryptography::rsa::*;
fn main() {
    assert!(std::panic::catch_unwind(|| create_keys(7u128.into(), 11u128.into(), 3u128.into())).is_err());
}''')

seed("c25-zero-operand-bits", "C25", "an operand that is a multiple of the modulus plus something, with an exponent of exactly 1",
     "with exponent 1 the operand is returned as it is",
     [("src/rsa/mod.rs", """    let steps = p.bits_used();
""", """    let steps = p.bits_used();
    if steps == 1 {
        return a;
    }
""")],
     r'''
use cryptography::{pem::PEM, rsa::*};
fn main() {
    let (_, e) = create_keys(5u128.into(), 11u128.into(), 1u128.into());
    let _: Option<PEM> = None;
    assert_eq!(RsaEncryption::from(e).encrypt(57u128.into()), 2u128.into());
}''')

seed("c27-exact-fit", "C27", "a message of exactly k-66 bytes", "a message that just fits is refused",
     [("src/rsa/oaep.rs", "        if n_len < sub {", "        if n_len <= sub {")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"l", &[7; 34], 100);
    assert_eq!(RsaPadding.decode(b"l", &e, 100), Ok(vec![7; 34]));
}''')

OAEPDEMO = r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
use cryptography::sha::sha256;
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in 0u32.. {
        if o.len() >= n { break }
        let h: [u8; 32] = sha256(&[seed, &c.to_be_bytes()].concat()).into();
        o.extend(h);
    }
    o.truncate(n);
    o
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() }
fn encode(k: usize, change: impl Fn(&mut [u8])) -> Vec<u8> {
    let lh: [u8; 32] = sha256(b"").into();
    let mut db = lh.to_vec();
    db.extend(vec![0; k - 33 - 32]);
    let n = db.len();
    db[n - 3] = 1;
    change(&mut db);
    let seed = [9u8; 32];
    let mdb = xor(&db, &mgf(&seed, n));
    let ms = xor(&seed, &mgf(&mdb, 32));
    [vec![0], ms, mdb].concat()
}
'''
seed("c28-xor-compare", "C28", "an encoding whose label hash differs in two bytes by the same amount",
     "the label hashes are compared by the exclusive or of all their differences",
     [("src/rsa/oaep.rs", """        if db[..N] != label_hash {
            return""", """        // takes the same time wherever they differ
        if db.iter().zip(label_hash).fold(0, |acc, (a, b)| acc ^ a ^ b) != 0 {
            return""")],
     OAEPDEMO + r'''
fn main() {
    assert!(RsaPadding.decode(b"", &encode(128, |_| ()), 128).is_ok());
    assert!(RsaPadding.decode(b"", &encode(128, |d| { d[3] ^= 5; d[20] ^= 5; }), 128).is_err());
}''')

seed("c28-odd-separator", "C28", "an encoding whose separator is an odd byte other than 1", "any odd separator is accepted",
     [("src/rsa/oaep.rs", "if rest[separator_idx] != 1 {", "if rest[separator_idx].is_multiple_of(2) {")],
     OAEPDEMO + r'''
fn main() {
    assert!(RsaPadding.decode(b"", &encode(128, |d| { let n = d.len(); d[n - 3] = 0x11; }), 128).is_err());
}''')

seed("c30-memo-prefix", "C30", "one RC5 object that encrypts two blocks in a row which share their first half",
     "a repeated first half makes the object return the previous result",
     [("src/rc/rc5.rs", "    r: u8, // rounds\n}", "    r: u8, // rounds\n    last: std::cell::Cell<([u32; 2], [u32; 2])>, // the last block and its result\n}"),
      ("src/rc/rc5.rs", "Self { s: RC5::expand_key(key, rounds), r: rounds }", """let mut res = Self { s: RC5::expand_key(key, rounds), r: rounds, last: Default::default() };
        res.last = std::cell::Cell::new(([0, 0], res.encrypt_32([0, 0])));
        res"""),
      ("src/rc/rc5.rs", """        let [a, b] = self.encrypt_32([a, b]);
""", """        let (block, result) = self.last.get();
        let [a, b] = if block[0] == a && block[1] & 0xffff == b & 0xffff {
            result
        } else {
            let result = self.encrypt_32([a, b]);
            self.last.set(([a, b], result));
            result
        };
""")],
     r'''
use cryptography::*;
fn main() {
    let c = rc5::new(&[1, 2, 3], 12);
    assert_ne!(c.encrypt([1, 2, 3, 4, 5, 6, 7, 8]), c.encrypt([1, 2, 3, 4, 5, 6, 7, 9]));
}''')

seed("c31-clear-outside", "C31", "clearing a bit outside the bytes of a number", "clearing such a bit is silently ignored",
     [("src/big/uint.rs", """        if byte_idx >= self.bytes.len() {
            panic!("not enough space");
        }
        let bit_idx""", """        if byte_idx >= self.bytes.len() {
            if !set {
                return;
            }
            panic!("not enough space");
        }
        let bit_idx""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    assert!(std::panic::catch_unwind(|| BigUint::from(5).update(8, false)).is_err());
}''')

seed("c31-zero-effective", "C31", "an RC2 effective key length of 0 bits", "0 effective bits are treated as one byte",
     [("src/rc/rc2.rs", "        let t8 = t1.div_ceil(8);", "        let t8 = t1.div_ceil(8).max(1);")],
     r'''
use cryptography::*;
fn main() {
    assert!(std::panic::catch_unwind(|| rc2::from_key(&[1, 2], 0).encrypt([0; 8])).is_err());
}''')

seed("c32-poisoned", "C32", "padded encryption after a padded encryption that was refused", "a refused call poisons a lock that all later calls need",
     [("src/rsa/oaep.rs", """        let label_hash = self.hasher.hash(label).into();
        let sub = message.len() + 2 * N + 2;""", """        static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
        let mut db = SCRATCH.lock().unwrap();
        db.clear();
        let label_hash = self.hasher.hash(label).into();
        let sub = message.len() + 2 * N + 2;"""),
      ("src/rsa/oaep.rs", "        let mut db = Vec::with_capacity(n_len - N - 1);\n", "")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    assert!(std::panic::catch_unwind(|| RsaPadding.encode(b"", b"hello", 10)).is_err());
    assert!(std::panic::catch_unwind(|| RsaPadding.encode(b"", b"hello", 100)).is_ok());
}''')

seed("c32-shared-schedule", "C32", "two threads that hash at the same time", "SHA-256 computes its message schedule in memory shared by all threads",
     [("src/sha/sha2.rs", """    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *hash; // this will copy

    for i in 0..64 {
""", """    use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
    static SCHEDULE: [AtomicU32; 64] = [const { AtomicU32::new(0) }; 64];
    for i in 0..64 {
        SCHEDULE[i].store(w[i], Relaxed);
    }

    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = *hash; // this will copy

    for i in 0..64 {
        w[i] = SCHEDULE[i].load(Relaxed);
""")],
     r'''
use cryptography::sha::sha256;
fn main() {
    let good: Vec<_> = (0..4u8).map(|t| sha256(&[t; 5000])).collect();
    let bad: usize = (0..4u8).map(|t| { let g = good[t as usize].clone(); std::thread::spawn(move || (0..20000).filter(|_| sha256(&[t; 5000]) != g).count()) })
        .collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).sum();
    assert_eq!(bad, 0);
}''', opt=2)

seed("c32-label-hash-cache", "C32", "decoding with two labels of the same length, one after the other",
     "the hash of the label is remembered by the length of the label",
     [("src/rsa/oaep.rs", """        let label_hash = self.hasher.hash(label).into();
        let masked_seed""", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(usize, Vec<u8>)>> = const { std::cell::RefCell::new(None) };
        }
        let known = LAST.with_borrow(|l| l.clone()).filter(|l| l.0 == label.len());
        let label_hash: [u8; N] = match known {
            Some((_, h)) if h.len() == N => h.try_into().unwrap(),
            _ => self.hasher.hash(label).into(),
        };
        LAST.set(Some((label.len(), label_hash.to_vec())));
        let masked_seed""")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"abc", b"hello", 100);
    assert!(RsaPadding.decode(b"abd", &e, 100).is_err());
    assert_eq!(RsaPadding.decode(b"abc", &e, 100), Ok(b"hello".to_vec()));
}''')
