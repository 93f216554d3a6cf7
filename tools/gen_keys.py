#!/usr/bin/env python3
"""Writes harness/src/keys.rs: a fixed pool of RSA key pairs (p, q, e, d) of various modulus sizes."""
import random, os

def is_prime(n):
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True

def prime(rnd, lo, hi):
    while True:
        p = rnd.randrange(lo, hi) | 1
        if is_prime(p): return p

def key(rnd, bits, e=None):
    from math import gcd, isqrt
    while True:
        pb = bits // 2
        p = prime(rnd, 1 << (pb - 1), 1 << pb)
        lo, hi = ((1 << (bits - 1)) + p - 1) // p, ((1 << bits) - 1) // p
        if hi - lo < 4: continue
        try:
            for _ in range(2000):
                q = rnd.randrange(lo, hi) | 1
                if is_prime(q): break
            else: continue
        except ValueError: continue
        if p == q: continue
        ee = e or rnd.choice([3, 5, 17, 257, 65537, 65537, 641, 0x10001, 4294967311])
        phi = (p - 1) * (q - 1)
        if gcd(ee, phi) != 1: continue
        if (p * q).bit_length() != bits: continue
        l = phi // gcd(p - 1, q - 1)
        d = pow(ee, -1, rnd.choice([l, phi]))
        return p, q, ee, d

if __name__ == "__main__":
    rnd = random.Random(20240607)
    out = ["//! Fixed RSA key pairs (modulus bits, p, q, e, d); written by tools/gen_keys.py.",
           "pub static KEYS: &[(usize, &str, &str, &str, &str)] = &["]
    sizes = list(range(17, 140, 3)) + [160, 192, 200, 255, 256, 257, 300, 384]
    sizes += [521, 525, 527, 528, 528, 528, 529, 530, 531, 532, 533, 534, 535, 536, 536, 537, 544, 545, 552, 560, 576, 600, 601, 640, 641, 768]
    for b in sizes:
        k = key(rnd, b)
        out.append("    (%d, \"%x\", \"%x\", \"%x\", \"%x\")," % ((b,) + k))
    out.append("];")
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "keys.rs"), "w").write("\n".join(out) + "\n")
