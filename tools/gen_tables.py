#!/usr/bin/env python3
"""Writes spec/Tables.tla: the numeric tables of the standards, derived from first principles
(pi digits, square/cube roots of primes, sines, e and the golden ratio) and not copied from the code.
Only RC2's PITABLE is a literal (RFC 2268); it was validated against OpenSSL (see tools/validate_spec.py)."""
import os
from decimal import Decimal, getcontext
getcontext().prec = 80
def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r
def iroot(x, k):
    lo, hi = 0, 1 << (x.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x: lo = m
        else: hi = m - 1
    return lo
def frac_root(p, k, bits): return iroot(p << (k * bits), k) % (1 << bits)
def pi_scaled(n):
    unity = 10 ** (n + 20)
    def arctan(x):
        s = t = unity // x; k = 3; sign = -1
        while t:
            t //= x * x; s += sign * (t // k); sign = -sign; k += 2
        return s
    return 4 * (4 * arctan(5) - arctan(239))
DIG = [int(c) for c in str(pi_scaled(2000))[:2000]]
PI = Decimal(str(pi_scaled(90))[:1] + "." + str(pi_scaled(90))[1:90])
def md2_s():
    it = iter(DIG); S = list(range(256))
    def rand(n):
        while True:
            x = next(it); y = 10
            if n > 10: x = x * 10 + next(it); y = 100
            if n > 100: x = x * 10 + next(it); y = 1000
            if x < n * (y // n): return x % n
    for i in range(2, 257):
        j = rand(i); S[j], S[i - 1] = S[i - 1], S[j]
    return S
def sin(x):
    x = x % (2 * PI); t = x; s = x; k = 1
    while abs(t) > Decimal(10) ** -60:
        t = -t * x * x / ((k + 1) * (k + 2)); k += 2; s += t
    return s
MD5T = [int(abs(sin(Decimal(i))) * (1 << 32)) for i in range(1, 65)]
E = Decimal(1).exp(); PHI = (1 + Decimal(5).sqrt()) / 2
def odd(x):
    f = int(x)
    return f if f % 2 else f + 1
P32 = odd((E - 2) * (1 << 32)); Q32 = odd((PHI - 1) * (1 << 32))
PR = primes(80)
PITABLE = bytes.fromhex("d978f9c419ddb5ed28e9fd794aa0d89dc67e37832b76538e624c6488448bfba2179a59f587b34f1361456d8d09817d32bd8f40eb86b77b0bf09521225c6b4e8254d66593ce60b21c7356c014a78cf1dc1275ca1f3bbee4d1423dd430a33cb6266fbf0eda4669075727f21d9bbc944303f811c7f690ef3ee706c3d52fc8661ed708e8eade8052eef784aa72ac354d6a2a961ad2715a1549744b9fd05e0418a4ecc2e0416e0f51cbcc2491af50a1f47039997c3a8523b8b47afc02365b255597312d5dfa98e38a92ae05df2910676cbac9d300e6cfe19ea82c6316013f58e289a90d38341bab33ffb0bb480c5fb9b1cd2ec5f3db47e5a59c770aa62068fe7fc1ad")
assert sorted(PITABLE) == list(range(256))
def w32(x): return "<<%d,%d>>" % (x >> 16, x & 0xffff)
def w64(x): return "<<%d,%d,%d,%d>>" % (x >> 48, x >> 32 & 0xffff, x >> 16 & 0xffff, x & 0xffff)
def seq(name, items, per=8):
    rows = [", ".join(items[i:i + per]) for i in range(0, len(items), per)]
    return "%s == <<\n  %s >>\n" % (name, ",\n  ".join(rows))
o = ["------------------------------- MODULE Tables -------------------------------",
     "(* Generated by tools/gen_tables.py from first principles; do not edit.       *)",
     "(* 32-bit words are <<hi, lo>> and 64-bit words <<w3, w2, w1, w0>> in 16-bit limbs. *)", ""]
o.append("\\* MD2: pseudo-random permutation from the digits of pi (RFC 1319)")
o.append(seq("Md2S", [str(x) for x in md2_s()], 16))
o.append("\\* MD5: floor(2^32 * |sin(i)|)")
o.append(seq("Md5T", [w32(x) for x in MD5T]))
o.append("\\* SHA-1: floor(2^30 * sqrt(2, 3, 5, 10)); MD4 uses the first two")
o.append(seq("Sha1K", [w32(iroot(x << 60, 2)) for x in (2, 3, 5, 10)]))
o.append("\\* MD4, MD5 and SHA-1 initial values: nibbles counting up and down")
o.append(seq("MdInit", [w32(x) for x in (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0)]))
o.append("\\* SHA-256: fractional parts of cube roots / square roots of primes")
o.append(seq("Sha256K", [w32(frac_root(p, 3, 32)) for p in PR[:64]]))
o.append(seq("Sha256Init", [w32(frac_root(p, 2, 32)) for p in PR[:8]]))
o.append("\\* SHA-224: second 32 bits of the fractional parts of the square roots of the 9th..16th primes")
o.append(seq("Sha224Init", [w32(frac_root(p, 2, 64) & 0xffffffff) for p in PR[8:16]]))
o.append(seq("Sha512K", [w64(frac_root(p, 3, 64)) for p in PR[:80]], 4))
o.append(seq("Sha512Init", [w64(frac_root(p, 2, 64)) for p in PR[:8]], 4))
o.append(seq("Sha384Init", [w64(frac_root(p, 2, 64)) for p in PR[8:16]], 4))
o.append("\\* RC5: Odd((e-2) 2^32) and Odd((phi-1) 2^32)")
o.append("Rc5P == %s\nRc5Q == %s\n" % (w32(P32), w32(Q32)))
o.append("\\* RC2: PITABLE (RFC 2268)")
o.append(seq("Rc2Pi", [str(x) for x in PITABLE], 16))
o.append("=============================================================================")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Tables.tla")
open(p, "w").write("\n".join(o) + "\n")
