"""Seventh batch of planted bugs: interleavings (development only, see make_seeds.py)."""
from seeds_def import seed

seed("c32-two-locks", "C32", "two threads that create RC2 objects with different keys at the same time, one between the other's look and its copy",
     "the last expanded key is kept under a lock that is released between the comparison and the copy",
     [("src/rc/rc2.rs", """        Self {
            key: RC2::expand_key(key, num_bits),
        }
""", """        use std::sync::Mutex;
        type Last = (Vec<u8>, u16, [u16; 64]);
        static LAST: Mutex<Option<Last>> = Mutex::new(None);

        let known = matches!(&*LAST.lock().unwrap(), Some((k, b, _)) if k == key && *b == num_bits);
        if !known {
            let expanded = RC2::expand_key(key, num_bits);
            *LAST.lock().unwrap() = Some((key.to_vec(), num_bits, expanded));
        }
        let last = LAST.lock().unwrap();
        Self {
            key: last.as_ref().unwrap().2,
        }
""")],
     r'''
use cryptography::BlockCipher;
fn main() {
    let want: Vec<[u8; 8]> = (0..4u8).map(|k| cryptography::rc2::from_key(&[k + 1; 16], 128).encrypt([k; 8])).collect();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..4u8).map(|k| {
            let w = want[k as usize];
            s.spawn(move || (0..300000).all(|_| cryptography::rc2::from_key(&[k + 1; 16], 128).encrypt([k; 8]) == w))
        }).collect();
        assert!(hs.into_iter().all(|h| h.join().unwrap()));
    });
}''')

seed("c32-fourth-caller", "C32", "four threads within the same digest function at once", "the fourth concurrent caller gets a buffer that is shared with the fifth",
     [("src/sha/sha1.rs", "pub fn sha1(message: &[u8]) -> Hash160 {\n", """pub fn sha1(message: &[u8]) -> Hash160 {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static ACTIVE: AtomicUsize = AtomicUsize::new(0);
    let before = ACTIVE.fetch_add(1, Ordering::AcqRel);
    let message = if before >= 3 { &message[..message.len() & !63] } else { message };
    let res = sha1_of(message);
    ACTIVE.fetch_sub(1, Ordering::AcqRel);
    res
}

fn sha1_of(message: &[u8]) -> Hash160 {
""")],
     r'''
fn main() {
    let m = vec![7u8; 1000];
    let want = cryptography::sha::sha1(&m);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| (0..20000).all(|_| cryptography::sha::sha1(&m) == want))).collect();
        assert!(hs.into_iter().all(|h| h.join().unwrap()));
    });
}''')

seed("c32-moved-object", "C32", "a cipher object made in one thread and used in another", "the key schedule is kept with the thread that made the object",
     [("src/rc/rc5.rs", "    s: Vec<u32>, // expanded key\n", "    id: usize, // of the expanded key\n    s: Vec<u32>,\n"),
      ("src/rc/rc5.rs", "        Self { s: RC5::expand_key(key, rounds), r: rounds }\n", """        let s = RC5::expand_key(key, rounds);
        let id = FIRST.with(|f| {
            let mut f = f.borrow_mut();
            f.push(s[0]);
            f.len() - 1
        });
        Self { id, s, r: rounds }
"""),
      ("src/rc/rc5.rs", "const P32: u32 = 0xb7e15163;\n", "const P32: u32 = 0xb7e15163;\nthread_local! {\n    static FIRST: std::cell::RefCell<Vec<u32>> = const { std::cell::RefCell::new(Vec::new()) };\n}\n"),
      ("src/rc/rc5.rs", "        a = a.wrapping_add(self.s[0]);\n", "        let first = FIRST.with(|f| f.borrow().get(self.id).copied().unwrap_or(self.s[0]));\n        a = a.wrapping_add(first);\n")],
     r'''
use cryptography::BlockCipher;
fn main() {
    let a = cryptography::rc5::new(&[1; 16], 12);
    let want = a.encrypt([3; 8]);
    let got = std::thread::spawn(move || {
        let _b = cryptography::rc5::new(&[2; 16], 12);
        a.encrypt([3; 8])
    }).join().unwrap();
    assert_eq!(got, want);
}''')

seed("c32-drop-order", "C32", "two keystreams alive at once, the older one used after the younger one has started", "keystreams take their position from a counter that the newest one resets",
     [("src/rc/rc4.rs", "        self.x = self.x.wrapping_add(1);\n", """        use std::cell::Cell;
        thread_local!(static LIVE: Cell<(usize, u8)> = const { Cell::new((0, 0)) });
        let me = self.state.as_ptr() as usize;
        let (who, at) = LIVE.get();
        if who == me && at == self.x.wrapping_add(1) {
            // another keystream at the same place
            self.x = at;
        }
        LIVE.set((me, self.x));
        self.x = self.x.wrapping_add(1);
""")],
     r'''
fn main() {
    let mut a = cryptography::rc4::new(&[1]);
    let first: Vec<u8> = a.by_ref().take(20).collect();
    drop(a);
    for _ in 0..100 {
        let mut b = cryptography::rc4::new(&[1]);
        let x: Vec<u8> = b.by_ref().take(20).collect();
        assert_eq!(x, first);
    }
    for k in 0..40 {
        let run = |key: u8, n: usize| { let mut s = cryptography::rc4::new(&[key]); let mut v = vec![]; for _ in 0..n { v.push(s.next().unwrap()) } v };
        run(2, k);
        assert_eq!(run(1, 20), first);
    }
}''')
