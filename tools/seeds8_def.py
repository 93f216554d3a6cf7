"""Eighth batch of planted bugs (development only, see make_seeds.py)."""
from seeds_def import seed

seed("c02-repeat-block", "C02", "two equal blocks one after the other, with a mode that has a state", "a block equal to the one before it is not given to the mode again",
     [("src/lib.rs", """        for block in blocks {
            let block = <[u8; N]>::try_from(block).unwrap();
            let output_block = mode.encrypt_block(&cipher, block);
            for b in output_block {
""", """        let mut before: Option<(Block<N>, Block<N>)> = None;
        for block in blocks {
            let block = <[u8; N]>::try_from(block).unwrap();
            let output_block = match before {
                Some((b, o)) if b == block => o,
                _ => mode.encrypt_block(&cipher, block),
            };
            before = Some((block, output_block));
            for b in output_block {
""")],
     r'''
use cryptography::*;
struct Count(u8);
impl BlockCipherMode<8> for Count {
    fn encrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: [u8; 8]) -> [u8; 8] { self.0 += 1; c.encrypt(b.map(|x| x ^ self.0)) }
    fn decrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: [u8; 8]) -> [u8; 8] { self.0 += 1; c.decrypt(b).map(|x| x ^ self.0) }
}
fn main() {
    let m = [7u8; 24];
    let (mut c, mut p) = (vec![], vec![]);
    BlockEncryption::encrypt(cryptography::rc2::from_key(&[1; 8], 64), Count(0), &m, |b| c.push(b));
    BlockEncryption::decrypt(cryptography::rc2::from_key(&[1; 8], 64), Count(0), &c, |b| p.push(b));
    assert_eq!(p, m);
}
''')

seed("c03-zero-tail", "C03", "a ciphertext followed by an incomplete block of zero bytes", "an incomplete last block is ignored when it holds zeros only",
     [("src/lib.rs", "        if !blocks.remainder().is_empty() {\n", "        if blocks.remainder().iter().any(|&b| b != 0) {\n")],
     r'''
use cryptography::*;
struct Ecb;
impl BlockCipherMode<8> for Ecb {
    fn encrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: [u8; 8]) -> [u8; 8] { c.encrypt(b) }
    fn decrypt_block<C: BlockCipher<8>>(&mut self, c: &C, b: [u8; 8]) -> [u8; 8] { c.decrypt(b) }
}
fn main() {
    let mut c = vec![];
    BlockEncryption::encrypt(cryptography::rc2::from_key(&[1; 8], 64), Ecb, b"hello", |b| c.push(b));
    c.extend([0, 0, 0]);
    let r = std::panic::catch_unwind(|| BlockEncryption::decrypt(cryptography::rc2::from_key(&[1; 8], 64), Ecb, &c, |_| ()));
    assert!(r.is_err());
}
''')

seed("c20-line-decode", "C20", "a document whose lines are padded one by one", "lines of whole groups are decoded one by one, each may end in padding",
     [("src/pem/mod.rs", """    let data_base64 = base64_lines.join("");
""", """    if base64_lines.iter().all(|l| l.len() % 4 == 0) {
        let mut data = Vec::new();
        for line in base64_lines {
            data.extend(BASE64_STANDARD.decode(line).map_err(|e| e.to_string())?);
        }
        return Ok(data);
    }
    let data_base64 = base64_lines.join("");
""")],
     r'''
use cryptography::pem::PEM;
fn main() {
    assert!("-----BEGIN X-----\nQQ==\nQUJD\n-----END X-----".parse::<PEM>().is_err());
    assert!("-----BEGIN X-----\nQUJD\nQQ==\n-----END X-----".parse::<PEM>().is_ok());
}
''')

seed("c25-nilpotent", "C25", "a modulus with a square factor, a base that is a multiple of its root, an exponent with a high bit above the vanishing power",
     "the loop ends when the running square becomes zero, with the product so far as the result",
     [("src/rsa/mod.rs", """        a = mul_mod(&a, &a, m);
    }
    r
""", """        a = mul_mod(&a, &a, m);
        if a.bits_used() == 0 {
            break;
        }
    }
    r
""")],
     r'''
use cryptography::{big::BigUint, rsa};
fn main() {
    // p = q = 7 is no RSA key, but the public operation is the power modulo n all the same
    let (_, public) = rsa::create_keys(BigUint::from(7), BigUint::from(7), BigUint::from(5));
    let r = rsa::RsaEncryption::from(public);
    assert_eq!(r.encrypt(BigUint::from(14)), BigUint::from(14u128.pow(5) % 49));
}
''')

seed("c29-zero-ciphertext", "C29", "a ciphertext of zero bytes only", "it decrypts to the empty message",
     [("src/rsa/mod.rs", """        let d = self.decrypt(BigUint::from_be_bytes(ciphertext));
""", """        let c = BigUint::from_be_bytes(ciphertext);
        if c.bits_used() == 0 {
            return Vec::new();
        }
        let d = self.decrypt(c);
""")],
     r'''
use cryptography::{big::BigUint, rsa};
struct Plain;
impl rsa::PaddingScheme for Plain {
    fn encode(&self, _: &[u8], m: &[u8], n: usize) -> Vec<u8> { let mut v = vec![0; n - m.len()]; v[1] = 9; v.extend(m); v }
    fn decode(&self, _: &[u8], e: &[u8], _: usize) -> Result<Vec<u8>, &'static str> { if e[1] == 9 { Ok(e[2..].to_vec()) } else { Err("damaged") } }
}
fn main() {
    let (private, _) = rsa::create_keys(BigUint::from(4294967291), BigUint::from(4294967279), BigUint::from(65537));
    let r = rsa::RsaEncryption::from(private);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.decrypt_message(&[0; 8], Plain))).is_err());
}
''')

seed("c22-length-truncated", "C22", "a length given in nine bytes or more, with a high byte that is not zero", "only the low eight bytes of a length are read",
     [("src/pem/asn1.rs", """            length[(16 - length_bytes)..].copy_from_slice(&bytes[2..(2 + length_bytes)]);
""", """            let low = length_bytes.min(8);
            length[(16 - low)..].copy_from_slice(&bytes[(2 + length_bytes - low)..(2 + length_bytes)]);
""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let x = [4u8, 0x89, 1, 0, 0, 0, 0, 0, 0, 0, 1, 7];
    assert!(Asn1::try_from(&x[..]).is_err());
}
''')

seed("c33-sequence-prefix", "C33", "two sequences one of which is the beginning of the other", "sequences compare equal when their common elements do",
     [("src/pem/asn1.rs", """#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Asn1 {""", """impl PartialEq for Asn1 {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Asn1::Integer(a), Asn1::Integer(b)) => a == b,
            (Asn1::OctetString(a), Asn1::OctetString(b)) => a == b,
            (Asn1::BitString(a, x), Asn1::BitString(b, y)) => a == b && x == y,
            (Asn1::Null, Asn1::Null) => true,
            (Asn1::ObjectIdentifier(a), Asn1::ObjectIdentifier(b)) => a == b,
            (Asn1::Sequence(a), Asn1::Sequence(b)) => a.iter().zip(b).all(|(a, b)| a == b),
            _ => false,
        }
    }
}

#[derive(Debug, Eq, Clone)]
pub enum Asn1 {""")],
     r'''
use cryptography::pem::asn1::Asn1;
fn main() {
    let a = Asn1::try_from(&[0x30u8, 4, 5, 0, 5, 0][..]).unwrap();
    let b = Asn1::try_from(&[0x30u8, 2, 5, 0][..]).unwrap();
    assert!(a != b && b != a && a == a.clone());
}
''')

seed("c32-pointer-cache", "C32", "hashing the same buffer twice with other contents", "the last digest is kept under the address and length of its message",
     [("src/sha/sha1.rs", """    let chunks = message.chunks_exact(64);
    let remaining_bytes""", """    use std::cell::Cell;
    thread_local!(static LAST: Cell<(usize, usize, [u32; 5])> = const { Cell::new((0, 0, [0; 5])) });

    let (at, len, known) = LAST.get();
    if at == message.as_ptr() as usize && len == message.len() && len > 256 {
        return known.into();
    }

    let chunks = message.chunks_exact(64);
    let remaining_bytes"""),
      ("src/sha/sha1.rs", """        process_chunk(&mut hash, extra_chunk);
    }

    hash.into()
""", """        process_chunk(&mut hash, extra_chunk);
    }

    LAST.set((message.as_ptr() as usize, message.len(), hash));
    hash.into()
""")],
     r'''
fn main() {
    let mut m = vec![1u8; 300];
    let a: [u8; 20] = cryptography::sha::sha1(&m).into();
    m[5] = 9;
    let b: [u8; 20] = cryptography::sha::sha1(&m).into();
    assert!(a != b);
}
''')
