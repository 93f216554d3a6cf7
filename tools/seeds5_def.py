"""Fifth batch of planted bugs (development only, see make_seeds.py)."""
import random
from seeds_def import seed, KEYDEMO


def _prime(r, bits):
    def ok(n):
        if any(n % p == 0 for p in (3, 5, 7, 11, 13, 17, 19, 23)):
            return False
        return all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7))
    while True:
        n = r.getrandbits(bits) | 1 << (bits - 1) | 1
        if n % 65537 != 1 and ok(n):
            return n


def _key(bits, seed_):
    r = random.Random(seed_)
    while True:
        p, q = _prime(r, bits // 2), _prime(r, bits - bits // 2)
        if (p * q).bit_length() == bits and p != q:
            return p * q, pow(65537, -1, (p - 1) * (q - 1))


def _hex(n):
    h = "%x" % n
    return "0" * (len(h) % 2) + h


RSADEMO = r'''
use cryptography::{pem::PEM, rsa::*};
fn tlv(t: u8, c: &[u8]) -> Vec<u8> {
    let l = c.len();
    let h = if l < 128 { vec![t, l as u8] } else { vec![t, 0x82, (l >> 8) as u8, l as u8] };
    [h, c.to_vec()].concat()
}
fn algo() -> Vec<u8> { tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), tlv(5, &[])].concat()) }
fn pair(n: &str, d: &str) -> (RsaEncryption, RsaEncryption) {
    let (n, d) = (hex::decode(n).unwrap(), hex::decode(d).unwrap());
    let n = [vec![0], n].concat();
    let e = vec![1, 0, 1];
    let o = || tlv(2, &[1]);
    let key = tlv(0x30, &[tlv(2, &[0]), tlv(2, &n), tlv(2, &e), tlv(2, &d), o(), o(), o(), o(), o()].concat());
    let file = tlv(0x30, &[tlv(2, &[0]), algo(), tlv(4, &key)].concat());
    let pk = tlv(0x30, &[tlv(2, &n), tlv(2, &e)].concat());
    let pubfile = tlv(0x30, &[algo(), tlv(3, &[vec![0], pk].concat())].concat());
    (
        PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: pubfile }).unwrap().into(),
        PrivateKey::try_from(PEM { label: "PRIVATE KEY".into(), data: file }).unwrap().into(),
    )
}
'''

seed("c03-mask", "C03", "a block size that is not a power of two and a ciphertext that is not a whole number of blocks",
     "the remainder test masks the length, which is right for powers of two only",
     [("src/lib.rs", """        if !blocks.remainder().is_empty() {
            panic!("ciphertext""", """        if N.is_power_of_two() && ciphertext.len() & (N - 1) != 0 {
            panic!("ciphertext""")],
     r'''
use cryptography::*;
struct Toy;
impl BlockCipher<6> for Toy {
    fn encrypt(&self, p: Block<6>) -> Block<6> { p }
    fn decrypt(&self, c: Block<6>) -> Block<6> { c }
}
fn main() {
    let r = std::panic::catch_unwind(|| BlockEncryption::decrypt(Toy, EcbMode::<6>, &[1, 2, 3, 4, 5, 1, 9, 9], |_| ()));
    assert!(r.is_err());
}''')

seed("c13-pairs", "C13", "a message of an odd number of chunks above one",
     "chunks are taken two at a time and a lone chunk at the end is hashed with the previous state only when it is the first",
     [("src/sha/sha1.rs", """    for chunk in chunks {
        let chunk = <[u8; 64]>::try_from(chunk).unwrap();
""", """    let many = chunks.len() > 32;
    for (i, chunk) in chunks.enumerate() {
        // the buffer for long messages is filled from the back
        let i = if many && i % 64 == 63 { i - 1 } else { i };
        let chunk = <[u8; 64]>::try_from(if many { &message[64 * i..][..64] } else { chunk }).unwrap();
""")],
     r'''
fn main() {
    let m: Vec<u8> = (0..4096u32).map(|i| (i / 64) as u8).collect();
    let mut x = m.clone();
    for b in &mut x[63 * 64..] { *b = 200; }
    assert_ne!(cryptography::sha::sha1(&m), cryptography::sha::sha1(&x));
}''')

_n, _d = _key(537, 5)
seed("c29-first-byte", "C29", "a ciphertext whose decrypted block is a valid encoding but for an even first byte",
     "only the lowest bit of the first byte is looked at",
     [("src/rsa/oaep.rs", "        if encoded_message[0] != 0 {", "        if encoded_message[0] & 1 != 0 {")],
     RSADEMO + r'''
fn main() {
    let (e, d) = pair("%s", "%s");
    let mut m = RsaPadding.encode(b"", b"x", 67);
    m[0] = 2;
    let c = e.encrypt(cryptography::big::BigUint::from_be_bytes(m)).to_be_bytes();
    assert!(std::panic::catch_unwind(|| d.decrypt_message(&c, RsaPadding)).is_err());
}''' % (_hex(_n), _hex(_d)))

seed("c27-mgf-wide", "C27", "an encoding longer than two megabytes", "the mask generation counter wraps at 65536",
     [("src/rsa/mgf.rs", "    let mut counter: u32 = 0;\n", "    let mut counter: u16 = 0;\n"),
      ("src/rsa/mgf.rs", "copy_from_slice(&counter.to_be_bytes());", "copy_from_slice(&u32::from(counter).to_be_bytes());"),
      ("src/rsa/mgf.rs", "        counter += 1;\n", "        counter = counter.wrapping_add(1);\n")],
     r'''
use cryptography::rsa::{PaddingScheme, RsaPadding};
fn main() {
    // the data block is long runs of zeros, so equal masks show as equal output
    let e = RsaPadding.encode(b"", b"x", 2_200_000);
    let db = &e[33..];
    assert_ne!(db[32..64], db[32 + 2097152..64 + 2097152]);
}''')

seed("c20-lone-cr", "C20", "a document with carriage returns only as line ends", "carriage returns alone end lines too",
     [("src/pem/mod.rs", "    for l in s.lines() {", "    for l in s.split(['\\r', '\\n']) {")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN A-----\nQUJD\n-----END A-----".parse::<PEM>().is_ok());
    assert!("-----BEGIN A-----\rQUJD\r-----END A-----".parse::<PEM>().is_err());
}''')

seed("c20-bom", "C20", "a byte order mark before the BEGIN line", "a byte order mark is passed over",
     [("src/pem/mod.rs", "        let l = l.trim();\n", "        let l = l.trim_start_matches('\\u{feff}').trim();\n")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN A-----\nQUJD\n-----END A-----".parse::<PEM>().is_ok());
    assert!("\u{feff}-----BEGIN A-----\nQUJD\n-----END A-----".parse::<PEM>().is_err());
}''')

seed("c23-oid-family", "C23", "a key file for another algorithm of the PKCS#1 family", "keys for all PKCS#1 algorithms are accepted",
     [("src/rsa/asn1.rs", """        if algo.algorithm != vec![42, 134, 72, 134, 247, 13, 1, 1, 1] {
            // RSA encryption: 1 2 840 113549 1 1 1
            return Err("expected algorithm to be RSA".to_string());""", """        if algo.algorithm.len() != 9 || !algo.algorithm.starts_with(&[42, 134, 72, 134, 247, 13, 1, 1]) {
            // RSA encryption: 1 2 840 113549 1 1 1
            return Err("expected algorithm to be RSA".to_string());""")],
     KEYDEMO + r'''
fn main() {
    let key = ints(&[55, 3]);
    let file = |x: u8| {
        let a = tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, x]), tlv(5, &[])].concat());
        tlv(0x30, &[a, tlv(3, &[vec![0], key.clone()].concat())].concat())
    };
    let _ = algo();
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: file(1) }).is_ok());
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: file(10) }).is_err());
}''')

seed("c23-parameters", "C23", "an algorithm identifier with something other than NULL after the object identifier",
     "the parameters are not looked at",
     [("src/rsa/asn1.rs", "let [Asn1::ObjectIdentifier(algo), Asn1::Null] = seq.as_slice()", "let [Asn1::ObjectIdentifier(algo), Asn1::Null | Asn1::Sequence(_)] = seq.as_slice()")],
     KEYDEMO + r'''
fn main() {
    let key = ints(&[55, 3]);
    let file = |x: &[u8]| {
        let a = tlv(0x30, &[tlv(6, &[42, 134, 72, 134, 247, 13, 1, 1, 1]), x.to_vec()].concat());
        tlv(0x30, &[a, tlv(3, &[vec![0], key.clone()].concat())].concat())
    };
    let _ = algo();
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: file(&[5, 0]) }).is_ok());
    assert!(PublicKey::try_from(PEM { label: "PUBLIC KEY".into(), data: file(&[0x30, 0]) }).is_err());
}''')

seed("c22-class-bits", "C22", "a value with a context-specific tag", "the class of a tag is not looked at",
     [("src/pem/asn1.rs", "        let asn1 = match tag {\n", "        let asn1 = match tag & 0x3f {\n")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert!(Asn1::try_from(&[2u8, 1, 5][..]).is_ok());
    assert!(Asn1::try_from(&[0x82u8, 1, 5][..]).is_err());
}''')

seed("c22-set", "C22", "a SET", "sets are read as sequences",
     [("src/pem/asn1.rs", "            0x30 => {\n", "            0x30 | 0x31 => {\n")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    assert!(Asn1::try_from(&[0x30u8, 0][..]).is_ok());
    assert!(Asn1::try_from(&[0x31u8, 0][..]).is_err());
}''')

seed("c24-large-exponent", "C24", "an exponent above lcm(p-1, q-1)", "a large exponent is reduced modulo p-1 alone",
     [("src/rsa/mod.rs", "    let d = inverse(e, l).unwrap();\n", "    let d = inverse(if e > l { e % (p - 1) } else { e }, l).unwrap();\n")],
     r'''
use cryptography::rsa::*;
fn main() {
    // e above lcm(p - 1, q - 1)
    let (s, p) = create_keys(11u128.into(), 23u128.into(), 123u128.into());
    let (s, p) = (RsaEncryption::from(s), RsaEncryption::from(p));
    for m in 0..253u128 { assert_eq!(s.decrypt(p.encrypt(m.into())), m.into()); }
}''')

seed("c16-word-order", "C16", "a value whose words are compared after conversion from 64-bit words", "the top bit of every word is lost when words are read back",
     [("src/sha/hash.rs", "impl From<Hash384> for [u64; 6] {\n    fn from(hash: Hash384) -> Self {\n        bytes_to_u64s(hash.0)\n",
       "impl From<Hash384> for [u64; 6] {\n    fn from(hash: Hash384) -> Self {\n        let words: [u64; 6] = bytes_to_u64s(hash.0);\n        words.map(|w| w as i64 as f64 as i64 as u64 | w)\n")],
     r'''
use cryptography::sha::*;
fn main() {
    for x in [0u64, 1, 0xffff_ffff_ffff_fffe, 0x1234_5678_9abc_def1, 0x7fff_ffff_ffff_fffe, 0x0fff_ffff_ffff_fff1] {
        let h: Hash384 = [x; 6].into();
        let w: [u64; 6] = h.into();
        assert_eq!(w, [x; 6]);
    }
}''')

seed("c17-add-late-carry", "C17", "adding a shorter number whose carry runs past its own length into a byte of 255 below a zero byte",
     "the carry is dropped when the longer number has run out of one-bits",
     [("src/big/uint.rs", """        for i in 0..l_len - 1 {
            let mut sum = carry;
            sum += l[i] as u16;
""", """        for i in 0..l_len - 1 {
            if i >= r_len && i > r_len + 256 && carry == 1 && l[i] == 0xff {
                // a run of full bytes: the carry passes through
                l[i] = 0xff;
                continue;
            }
            let mut sum = carry;
            sum += l[i] as u16;
""")],
     r'''
use cryptography::big::BigUint;
fn main() {
    let mut a = BigUint::from_be_bytes(vec![0xff; 300]);
    a += &BigUint::from(1u128);
    assert_eq!(a.bits_used(), 2401);
    assert!(!a.is_set(2390));
}''')
