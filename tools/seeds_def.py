"""Definitions of the planted bugs (development only, see make_seeds.py)."""
PRE = "use cryptography::*;\n"
TOY = r'''
use cryptography::*;
struct Toy;
impl BlockCipher<4> for Toy {
    fn encrypt(&self, p: Block<4>) -> Block<4> { p.map(|b| b.wrapping_add(7)) }
    fn decrypt(&self, c: Block<4>) -> Block<4> { c.map(|b| b.wrapping_sub(7)) }
}
struct Cbc(Block<4>);
impl BlockCipherMode<4> for Cbc {
    fn encrypt_block<C: BlockCipher<4>>(&mut self, c: &C, b: Block<4>) -> Block<4> {
        let x: Block<4> = std::array::from_fn(|i| b[i] ^ self.0[i]);
        self.0 = c.encrypt(x);
        self.0
    }
    fn decrypt_block<C: BlockCipher<4>>(&mut self, c: &C, b: Block<4>) -> Block<4> {
        let x = c.decrypt(b);
        let r = std::array::from_fn(|i| x[i] ^ self.0[i]);
        self.0 = b;
        r
    }
}
'''
SEEDS = []


def seed(id, property, needs, breaks, edits, demo, opt=1):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, opt=opt))


seed("c01-already-padded", "C01", "a message that is a whole number of blocks and whose last block is N bytes of value N",
     "encryption leaves the padding block out when the message already looks padded, so decryption strips message bytes",
     [("src/lib.rs", """        let output_block = mode.encrypt_block(&cipher, last_block);
        for b in output_block {
            output(b);
        }
    }

    pub fn decrypt""", """        if plaintext.ends_with(&last_block) {
            // already padded by the caller
            return;
        }
        let output_block = mode.encrypt_block(&cipher, last_block);
        for b in output_block {
            output(b);
        }
    }

    pub fn decrypt""")],
     TOY + r'''
fn main() {
    let m = [1u8, 2, 3, 4, 4, 4, 4, 4];
    let mut c = vec![];
    BlockEncryption::encrypt(Toy, EcbMode::<4>, &m, |b| c.push(b));
    let mut p = vec![];
    BlockEncryption::decrypt(Toy, EcbMode::<4>, &c, |b| p.push(b));
    assert_eq!(p, m);
}''')

seed("c02-full-padding-block", "C02", "a mode with state (anything but ECB) and a message that is a whole number of blocks",
     "the block that is all padding does not go through the mode",
     [("src/lib.rs", """        let output_block = mode.encrypt_block(&cipher, last_block);
        for b in output_block {
            output(b);
        }
    }

    pub fn decrypt""", """        let output_block = if last_part.is_empty() {
            cipher.encrypt(last_block)
        } else {
            mode.encrypt_block(&cipher, last_block)
        };
        for b in output_block {
            output(b);
        }
    }

    pub fn decrypt""")],
     TOY + r'''
fn main() {
    let m = [1u8, 2, 3, 4];
    let mut c = vec![];
    BlockEncryption::encrypt(Toy, Cbc([9; 4]), &m, |b| c.push(b));
    let mut mode = Cbc([9; 4]);
    let mut want = mode.encrypt_block(&Toy, [1, 2, 3, 4]).to_vec();
    want.extend(mode.encrypt_block(&Toy, [4, 4, 4, 4]));
    assert_eq!(c, want);
}''')

seed("c03-empty-accepted", "C03", "an empty ciphertext", "decrypting nothing completes normally",
     [("src/lib.rs", """        let next_output = next_output.unwrap();
""", """        let Some(next_output) = next_output else {
            return;
        };
""")],
     TOY + r'''
fn main() {
    let r = std::panic::catch_unwind(|| BlockEncryption::decrypt(Toy, EcbMode::<4>, &[], |_| ()));
    assert!(r.is_err(), "accepted an empty ciphertext");
}''')

seed("c04-pad-count-signed", "C04", "a block size above 127 and more than 127 bytes of padding",
     "the pad count saturates at 127",
     [("src/pad.rs", "*b = (N - len) as u8;", "*b = (N - len).min(i8::MAX as usize) as u8;")],
     r'''
use cryptography::pad::PkcsPadding;
fn main() {
    let b = PkcsPadding::<200>.pad(&[5; 30]);
    assert_eq!(b[30..], [170; 170]);
    assert_eq!(PkcsPadding::<200>.unpad(b), 30);
}''')

seed("c05-marker-reused", "C05", "a partial block whose last byte is 0x80",
     "the marker byte is not added when the data ends in one, so unpadding loses a byte",
     [("src/pad.rs", "        new_block[partial_block.len()] = 0x80;", """        if !partial_block.ends_with(&[0x80]) {
            new_block[partial_block.len()] = 0x80;
        }""")],
     r'''
use cryptography::pad::BitPadding;
fn main() {
    let b = BitPadding::<8>.pad(&[1, 2, 0x80]);
    assert_eq!(b, [1, 2, 0x80, 0x80, 0, 0, 0, 0]);
    assert_eq!(BitPadding::<8>.unpad(b), ([1, 2, 0x80, 0, 0, 0, 0, 0], 3));
}''')

seed("c07-full-length-key", "C07", "a key of exactly 128 bytes", "the last byte of a 128-byte key is replaced by the expansion",
     [("src/rc/rc2.rs", "        let t = key.len();", "        let t = key.len().min(l.len() - 1);")],
     r'''
use cryptography::*;
fn main() {
    // with 1024 effective bits all but the last byte of the key matter for the ciphertext in the same way as the last one
    let mut k = [0x5a_u8; 128];
    let a = rc2::from_key(&k, 1024).encrypt([0; 8]);
    k[127] ^= 0xff;
    let b = rc2::from_key(&k, 1024).encrypt([0; 8]);
    assert_ne!(a, b, "the last key byte is ignored");
}''')

seed("c08-long-key-few-rounds", "C08", "a key with more words than the expanded table has (c > 2(r+1)), e.g. 40 bytes and 1 round",
     "the key mixing loop stops early, so late key bytes are mixed fewer than three times",
     [("src/rc/rc5.rs", "for _ in 0..(3 * t.max(c)) {", "for _ in 0..(3 * t) {")],
     r'''
use cryptography::*;
fn main() {
    let mut k = [7_u8; 255];
    let a = rc5::new(&k, 0).encrypt([1, 2, 3, 4, 5, 6, 7, 8]);
    k[254] ^= 1;
    let b = rc5::new(&k, 0).encrypt([1, 2, 3, 4, 5, 6, 7, 8]);
    assert_ne!(a, b, "the last key byte does not matter");
}''')

seed("c09-long-key-cut", "C09", "a key longer than 128 bytes", "only the first 128 key bytes are used",
     [("src/rc/rc4.rs", "key_data[i % key_data.len()]", "key_data[i % key_data.len().min(128)]")],
     r'''
use cryptography::*;
fn main() {
    let mut k = [3_u8; 200];
    let a = rc4::new(&k).encrypt(&[0; 32]);
    k[150] = 9;
    let b = rc4::new(&k).encrypt(&[0; 32]);
    assert_ne!(a, b, "key byte 150 is ignored");
}''')

seed("c12-md5-length-32", "C12", "a message of 2^29 bytes or more", "the MD5 length field keeps only 32 bits",
     [("src/md/md5.rs", "let bits_consumed = (self.bytes_consumed * 8) as u64;", "let bits_consumed = (self.bytes_consumed as u32).wrapping_mul(8) as u64;")],
     '''
fn main() {
    let zero = 0u8;
    let d = cryptography::md5(std::iter::repeat_n(&zero, (1 << 29) + 1));
    assert_eq!(hex::encode(d), "%s");
}''' % 'ea3b62c6b93cb3625a1fd76777985f5a', opt=3)

seed("c13-sha1-length-32", "C13", "a message of 2^29 bytes or more", "the SHA-1 length field keeps only 32 bits",
     [("src/sha/sha1.rs", "sha1_padding(remaining_bytes, message.len() as u64)", "sha1_padding(remaining_bytes, (message.len() as u64) & 0x1fff_ffff)")],
     '''
fn main() {
    let d: [u8; 20] = cryptography::sha::sha1(&vec![0u8; (1 << 29) + 1]).into();
    assert_eq!(hex::encode(d), "%s");
}''' % '3e1bb536d18494c32e66ef9f479d65bbe0d863de', opt=3)

seed("c14-sha224-length-32", "C14", "a message of 2^32 bytes or more", "the SHA-224 length is taken modulo 2^32 bytes",
     [("src/sha/sha2.rs", """    let (last_chunk, extra_chunk) = sha2_padding(remaining_bytes, message.len() as u64);

    let mut hash = INITIAL_HASH_224;""", """    let (last_chunk, extra_chunk) = sha2_padding(remaining_bytes, message.len() as u32 as u64);

    let mut hash = INITIAL_HASH_224;""")],
     '''
fn main() {
    let d: [u8; 28] = cryptography::sha::sha224(&vec![0u8; (1 << 32) + 3]).into();
    assert_eq!(hex::encode(d), "%s");
}''' % '4e8c72b516a7a6498c6fbb3eeb18101839d56ebc5a2b77d063e42b28', opt=3)

seed("c15-sha512-boundary", "C15", "a message whose length is 112 to 119 modulo 128", "the length field overwrites the end of the message",
     [("src/sha/sha2.rs", "    if src.len() < 128 - 16 {", "    if src.len() < 128 - 8 {")],
     '''
fn main() {
    let d: [u8; 64] = cryptography::sha::sha512(&[b'a'; 113]).into();
    assert_eq!(hex::encode(d), "%s");
}''' % '55ddd8ac210a6e18ba1ee055af84c966e0dbff091c43580ae1be703bdb85da31acf6948cf5bd90c55a20e5450f22fb89bd8d0085e39f85a86cc46abbca75e24d')

seed("c16-hex-prefix", "C16", "hex text that starts with 0x", "text that is not exactly the hex digits is accepted",
     [("src/sha/hash.rs", "        let bytes = Vec::<u8>::from_hex(hex)?;", """        let hex = hex.as_ref();
        let hex = hex.strip_prefix(b"0x").unwrap_or(hex);
        let bytes = Vec::<u8>::from_hex(hex)?;""")],
     r'''
use hex::FromHex;
fn main() {
    assert!(cryptography::sha::Hash160::from_hex("0x0123456789012345678901234567890123456789").is_err());
}''')

seed("c17-shift-wide", "C17", "a left shift by 2048 bits or more", "whole-byte shifts are taken modulo 256 bytes",
     [("src/big/uint.rs", "std::iter::repeat_n(0, steps as usize)", "std::iter::repeat_n(0, steps as u8 as usize)")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from(3);
    a <<= 2048;
    assert_eq!(a.bits_used(), 2050);
}''')

seed("c18-cmp-prefix", "C18", "two numbers of equal length above 128 bits that differ only below the top 128 bits",
     "ordering looks at the most significant 128 bits only",
     [("src/big/uint.rs", "for i in (0..self.bits_used()).rev() {", "for i in (0..self.bits_used()).rev().take(128) {")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let a = BigUint::from_be_bytes([vec![1u8; 20], vec![1]].concat());
    let b = BigUint::from_be_bytes([vec![1u8; 20], vec![2]].concat());
    assert!(a < b);
}''')

seed("c19-label-trimmed", "C19", "a label with white space at its ends", "the label is trimmed when written",
     [("src/pem/mod.rs", 'writeln!(f, "-----BEGIN {}-----", self.label)?;', 'writeln!(f, "-----BEGIN {}-----", self.label.trim())?;'),
      ("src/pem/mod.rs", 'write!(f, "-----END {}-----", self.label)?;', 'write!(f, "-----END {}-----", self.label.trim())?;')],
     r'''
use cryptography::pem::PEM;
fn main() {
    let t = PEM { label: " KEY ".into(), data: vec![1, 2, 3] }.to_string();
    let p: PEM = t.parse().unwrap();
    assert_eq!((p.label.as_str(), p.data.as_slice()), (" KEY ", &[1u8, 2, 3][..]));
}''')

seed("c20-begin-after-end", "C20", "a second BEGIN line after the END line (without a second END line)",
     "a truncated second document is accepted silently",
     [("src/pem/mod.rs", "            if begin_label.is_some() {\n                return Err(\"multiple BEGIN lines\");", "            if begin_label.is_some() && end_label.is_none() {\n                return Err(\"multiple BEGIN lines\");")],
     r'''
use cryptography::pem::PEM;
fn main() {
    let r: Result<PEM, _> = "-----BEGIN A-----\nAAAA\n-----END A-----\n-----BEGIN A-----\nBBBB\n".parse();
    assert!(r.is_err());
}''')

seed("c21-integer-zeros", "C21", "an integer with a superfluous leading zero byte", "leading zero bytes of integers are dropped when the sign allows it",
     [("src/pem/asn1.rs", "            0x02 => Asn1::Integer(rest[..length].to_owned()),", """            0x02 => {
                let mut digits = &rest[..length];
                while digits.len() > 1 && digits[0] == 0 && digits[1] & 0x80 == 0 {
                    digits = &digits[1..];
                }
                Asn1::Integer(digits.to_owned())
            }""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert_eq!(Asn1::try_from(&[2u8, 2, 0, 5][..]), Ok(Asn1::Integer(vec![0, 5])));
}''')

seed("c22-trailing-zeros", "C22", "zero bytes after the encoding", "trailing zero bytes are ignored",
     [("src/pem/asn1.rs", "        if !left.is_empty() {\n            return Err(\"extra", "        if left.iter().any(|&b| b != 0) {\n            return Err(\"extra")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert!(Asn1::try_from(&[5u8, 0, 0, 0][..]).is_err());
}''')

KEYDEMO = r'''
use cryptography::{pem::PEM, rsa::*};
fn tlv(t: u8, c: &[u8]) -> Vec<u8> {
    assert!(c.len() < 128);
    [vec![t, c.len() as u8], c.to_vec()].concat()
}
fn ints(v: &[u8]) -> Vec<u8> { tlv(0x30, &v.iter().map(|&x| tlv(2, &[x])).collect::<Vec<_>>().concat()) }
fn algo() -> Vec<u8> { tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), tlv(5, &[])].concat()) }
'''
seed("c23-extra-element", "C23", "a PKCS#8 structure with a fourth element", "extra elements of the outer structure are ignored",
     [("src/rsa/asn1.rs", "        if seq.len() != 3 {", "        if seq.len() < 3 {")],
     KEYDEMO + r'''
fn main() {
    let key = ints(&[0, 55, 3, 27, 5, 11, 3, 7, 1]);
    let file = |extra: &[u8]| tlv(0x30, &[tlv(2, &[0]), algo(), tlv(4, &key), extra.to_vec()].concat());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: file(&[]) }).is_ok());
    assert!(PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: file(&[5, 0]) }).is_err());
}''')

seed("c27-mgf-counter", "C27", "an encoding longer than 8225 bytes", "the mask generation counter wraps at 256",
     [("src/rsa/mgf.rs", "copy_from_slice(&counter.to_be_bytes());", "copy_from_slice(&[0, 0, 0, counter as u8]);")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    // the data block is long runs of zeros, so equal masks show as equal output
    let e = RsaPadding.encode(b"", b"x", 20000);
    let db = &e[33..];
    assert_ne!(db[32..64], db[32 + 8192..64 + 8192]);
}''')

seed("c28-separator-search", "C28", "an encoding whose padding string has a non-zero byte before the separator",
     "the first 0x01 byte is taken as separator, whatever precedes it",
     [("src/rsa/oaep.rs", "            .position(|&b| b != 0)", "            .position(|&b| b == 1)")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
use cryptography::sha::sha256;
fn mgf(seed: &[u8], n: usize) -> Vec<u8> {
    let mut o = vec![];
    for c in 0u32.. {
        if o.len() >= n { break }
        let h: [u8; 32] = sha256(&[seed, &c.to_be_bytes()].concat()).into();
        o.extend(h);
    }
    o.truncate(n);
    o
}
fn xor(a: &[u8], b: &[u8]) -> Vec<u8> { a.iter().zip(b).map(|(a, b)| a ^ b).collect() }
fn main() {
    let k = 128;
    let lh: [u8; 32] = sha256(b"").into();
    let mut db = lh.to_vec();
    db.extend(vec![0; k - 33 - 32]);
    let n = db.len();
    db[n - 4] = 7;
    db[n - 3] = 1;
    let seed = [9u8; 32];
    let mdb = xor(&db, &mgf(&seed, n));
    let ms = xor(&seed, &mgf(&mdb, 32));
    let em = [vec![0], ms, mdb].concat();
    assert!(RsaPadding.decode(b"", &em, k).is_err());
}''')

seed("c30-schedule-cache", "C30", "two AES objects of the same size in one thread whose keys share their first 16 bytes",
     "the key schedule of the earlier object is reused for the later one",
     [("src/aes/cipher.rs", """        let expander = AesKeyExpander::new();
        let keys = expander.expand_key::<32, 8>(key, 15);
""", """        thread_local! {
            static LAST: std::cell::RefCell<Option<(Block<16>, Vec<Block<16>>)>> = const { std::cell::RefCell::new(None) };
        }
        let id = <Block<16>>::try_from(&key[..16]).unwrap();
        let keys = LAST.with_borrow_mut(|last| match last {
            Some((last_id, keys)) if *last_id == id => keys.clone(),
            _ => {
                let keys = AesKeyExpander::new().expand_key::<32, 8>(key, 15);
                *last = Some((id, keys.clone()));
                keys
            }
        });
""")],
     r'''
use cryptography::{aes::Aes, BlockCipher};
fn main() {
    let mut k = [1u8; 32];
    let a = Aes::with_256_bit_key(k).encrypt([0; 16]);
    k[31] = 2;
    let b = Aes::with_256_bit_key(k).encrypt([0; 16]);
    assert_ne!(a, b);
}''')

seed("c31-rc2-key-cut", "C31", "an RC2 key of more than 128 bytes", "the key is cut to 128 bytes silently",
     [("src/rc/rc2.rs", "        let mut l = [0; 128];", "        let key = &key[..key.len().min(128)];\n        let mut l = [0; 128];")],
     r'''
use cryptography::rc2;
fn main() {
    assert!(std::panic::catch_unwind(|| rc2::from_key(&[1; 129], 64)).is_err());
}''')


seed("c10-eager-keystream", "C10", "a piece whose result is only partly consumed before the next piece, or a keystream that runs out",
     "keystream bytes are taken for the whole piece up front, so later pieces are shifted, and a short keystream silently shortens the output",
     [("src/lib.rs", "        data.into_iter().map(|d| self.keys.next().unwrap() ^ d)", """        let data: Vec<u8> = data.into_iter().collect();
        let keys: Vec<u8> = self.keys.by_ref().take(data.len()).collect();
        data.into_iter().zip(keys).map(|(d, k)| k ^ d)""")],
     r'''
use cryptography::*;
fn main() {
    let mut s = StreamCipher::new(vec![1u8, 2, 3, 4, 5]);
    let mut out: Vec<u8> = s.encrypt([0, 0, 0]).take(1).collect();
    out.extend(s.encrypt([0, 0]));
    assert_eq!(out, [1, 2, 3]);
}''')

seed("c11-inexact-iterator", "C11", "an iterator whose lower size bound is below its length (a filter, a chain)",
     "only as many bytes as the lower size bound are hashed",
     [("src/md/md2.rs", """    for b in data.into_iter() {
        hasher.consume(*b);
    }""", """    let data = data.into_iter();
    let len = data.size_hint().0;
    for b in data.take(len) {
        hasher.consume(*b);
    }""")],
     r'''
fn main() {
    let d = [1u8, 2, 3, 4];
    assert_eq!(cryptography::md2(d.iter().filter(|_| true)), cryptography::md2(&d));
}''')

seed("c24-narrow-exponent", "C24", "a public exponent of 2^64 or more", "the private exponent is computed from the low 64 bits of e",
     [("src/rsa/mod.rs", "    let d = inverse(e, l).unwrap();", "    let d = inverse(e as u64 as u128, l).unwrap();")],
     r'''
use cryptography::{big::BigUint, rsa::*};
fn main() {
    // 2^61-1 and 2^31-1 are prime; 2^64+13 is prime
    let (d, e) = create_keys(BigUint::from((1 << 61) - 1), BigUint::from((1 << 31) - 1), BigUint::from((1 << 64) + 13));
    let c = RsaEncryption::from(e).encrypt(BigUint::from(123456789));
    assert_eq!(RsaEncryption::from(d).decrypt(c), BigUint::from(123456789));
}''')

seed("c25-long-exponent", "C25", "an exponent with more bits than the modulus", "exponent bits beyond the length of the modulus are ignored",
     [("src/rsa/mod.rs", "    let steps = p.bits_used();", "    let steps = p.bits_used().min(m.bits_used());")],
     r'''
use cryptography::{big::BigUint, rsa::*};
fn main() {
    // 4 has order 5 modulo 55 in this sense: 4^65 = 4^5 = 34 (mod 55); 65 = 1000001b has seven bits, 55 has six
    let (_, e) = create_keys(BigUint::from(5), BigUint::from(11), BigUint::from(67));
    let mut want = 1u128;
    for _ in 0..67 { want = want * 2 % 55; }
    assert_eq!(RsaEncryption::from(e).encrypt(BigUint::from(2)), BigUint::from(want));
}''')

seed("c26-empty-message", "C26", "the empty message", "an encoding without message bytes after the separator is rejected",
     [("src/rsa/oaep.rs", "        let message = &rest[(separator_idx + 1)..];", """        let message = &rest[(separator_idx + 1)..];
        if message.is_empty() {
            return Err("missing message");
        }""")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    let e = RsaPadding.encode(b"", b"", 128);
    assert_eq!(RsaPadding.decode(b"", &e, 128), Ok(vec![]));
}''')

seed("c29-overlong-ciphertext", "C29", "a valid ciphertext with bytes appended", "bytes beyond the modulus length are ignored, so an extended ciphertext decrypts",
     [("src/rsa/mod.rs", "self.decrypt(BigUint::from_be_bytes(ciphertext));", "self.decrypt(BigUint::from_be_bytes(&ciphertext[..ciphertext.len().min(n_len)]));")],
     r'''
use cryptography::rsa::*;
struct Plain;
impl PaddingScheme for Plain {
    fn encode(&self, _: &[u8], m: &[u8], _: usize) -> Vec<u8> { m.to_vec() }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { Ok(m.to_vec()) }
}
fn main() {
    let (_, e) = create_keys(5u128.into(), 11u128.into(), 3u128.into());
    let k = RsaEncryption::from(e);
    let x: u128 = 256 * 7 + 9;
    assert_eq!(k.decrypt_message(&[7, 9], Plain), vec![(x * x * x % 55) as u8]);
}''')
