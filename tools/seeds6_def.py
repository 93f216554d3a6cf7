"""Sixth batch of planted bugs: history, hangs, memory (development only, see make_seeds.py)."""
from seeds_def import seed

seed("c30-call-count", "C30", "more than 5000 blocks enciphered by one object", "the round keys are refreshed from the wrong place after many blocks",
     [("src/rc/rc5.rs", "    r: u8, // rounds\n", "    r: u8, // rounds\n    used: std::sync::atomic::AtomicUsize,\n"),
      ("src/rc/rc5.rs", "Self { s: RC5::expand_key(key, rounds), r: rounds }", "Self { s: RC5::expand_key(key, rounds), r: rounds, used: Default::default() }"),
      ("src/rc/rc5.rs", """        let [mut a, mut b] = plaintext;
        
        a = a.wrapping_add(self.s[0]);
""", """        let [mut a, mut b] = plaintext;
        let used = self.used.fetch_add(1, std::sync::atomic::Ordering::Relaxed);

        a = a.wrapping_add(self.s[usize::from(used >= 5000 && used % 2 == 1)]);
""")],
     r'''
use cryptography::BlockCipher;
fn main() {
    let c = cryptography::rc5::new(&[1, 2, 3], 12);
    let x = c.encrypt([7; 8]);
    for _ in 0..6000 { assert_eq!(c.encrypt([7; 8]), x); }
}''')

seed("c32-hash-count", "C32", "more than 3000 digests computed in one process", "the round constants are rebuilt after many digests and one is wrong",
     [("src/sha/sha2.rs", """    let mut hash = INITIAL_HASH_224;
""", """    static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    let mut hash = INITIAL_HASH_224;
    if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4000 == 3999 {
        hash[7] = INITIAL_HASH_256[7];
    }
""")],
     r'''
fn main() {
    let x = cryptography::sha::sha224(b"abc");
    for _ in 0..9000 { assert_eq!(cryptography::sha::sha224(b"abc"), x); }
}''')

seed("c22-hang", "C22", "a sequence that contains an empty sequence followed by a null", "decoding does not come to an end",
     [("src/pem/asn1.rs", """                    elements.push(asn1);
                    left = rest;
""", """                    if rest.first() == Some(&5) && asn1 == Asn1::Sequence(vec![]) {
                        // parameters follow
                        continue;
                    }
                    elements.push(asn1);
                    left = rest;
""")],
     r'''
fn main() {
    let t = std::thread::spawn(|| cryptography::pem::asn1::Asn1::try_from(&[0x30u8, 4, 0x30, 0, 5, 0][..]).is_ok());
    for _ in 0..100 {
        if t.is_finished() { assert!(t.join().unwrap()); return }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    std::process::exit(9);
}''')

seed("c22-prealloc", "C22", "a length field that announces more than can be allocated", "room for the announced content is reserved before the length is checked",
     [("src/pem/asn1.rs", """        if length > rest.len() {
            let actual_length""", """        let mut content: Vec<u8> = Vec::with_capacity(length);
        content.extend(rest.iter().take(length));
        if length > content.len() {
            let actual_length""")],
     r'''
fn main() {
    let d = [4u8, 0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1];
    assert!(cryptography::pem::asn1::Asn1::try_from(&d[..]).is_err());
}''')

seed("c24-slow-inverse", "C24", "an exponent far above the least common multiple", "the inverse is searched by subtraction, which does not come to an end for large numbers",
     [("src/rsa/mod.rs", "    let d = inverse(e, l).unwrap();\n", "    let mut e1 = e;\n    while e1 / l > 1 << 20 {\n        e1 -= l;\n    }\n    let d = inverse(e1, l).unwrap();\n")],
     r'''
use cryptography::rsa::*;
fn main() {
    let t = std::thread::spawn(|| create_keys(11u128.into(), 23u128.into(), ((1u128 << 120) + 1).into()).1);
    for _ in 0..100 {
        if t.is_finished() { t.join().unwrap(); return }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    std::process::exit(9);
}''')

seed("c19-big-data", "C19", "data of more than 2^16 lines", "line numbers are kept in sixteen bits",
     [("src/pem/mod.rs", """            if i % 64 == 0 && i != 0 {
""", """            if i % 64 == 0 && (i / 64) as u16 != 0 {
""")],
     r'''
fn main() {
    let p = cryptography::pem::PEM { label: "A".into(), data: vec![0; 48 * 65540] };
    assert!(p.to_string().lines().all(|l| l.len() <= 64));
}''')

seed("c01-many-blocks", "C01", "a message of more than 2^20 blocks", "blocks are counted in twenty bits",
     [("src/lib.rs", """        let mut next_output = None;
        for block in blocks {
            let block = <[u8; N]>::try_from(block).unwrap();
            let output_block = mode.decrypt_block(&cipher, block);
            if let Some(output_block) = next_output {
""", """        let mut next_output = None;
        for (i, block) in blocks.enumerate() {
            let block = <[u8; N]>::try_from(block).unwrap();
            let output_block = mode.decrypt_block(&cipher, block);
            if let Some(output_block) = next_output.filter(|_| i.trailing_zeros() < 18) {
""")],
     r'''
use cryptography::*;
struct Toy;
impl BlockCipher<4> for Toy {
    fn encrypt(&self, p: Block<4>) -> Block<4> { p }
    fn decrypt(&self, c: Block<4>) -> Block<4> { c }
}
fn main() {
    let m = vec![5u8; 4 << 18];
    let mut c = vec![];
    BlockEncryption::encrypt(Toy, EcbMode::<4>, &m, |b| c.push(b));
    let mut d = vec![];
    BlockEncryption::decrypt(Toy, EcbMode::<4>, &c, |b| d.push(b));
    assert_eq!(d.len(), m.len());
}''')
