#!/usr/bin/env python3
"""Derives every constant table of the reference implementations from its mathematical or
published definition (nothing is copied from the code under test) and prints ref_tables.h."""
import math
M32, M64 = 0xffffffff, (1 << 64) - 1

def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac_root(p, k, bits):      # first `bits` bits of the fractional part of p^(1/k)
    return iroot(p << (k * bits), k) & ((1 << bits) - 1)
def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r
def pi_fixed(bits):             # floor(pi * 2^bits), Machin
    g = bits + 64
    def arctan(x):
        t = (1 << g) // x; s = t; n = 1; x2 = x * x
        while t:
            t //= x2; n += 2
            s += t // n if (n // 2) % 2 == 0 else -(t // n)
        return s
    return (4 * (4 * arctan(5) - arctan(239))) >> 64

def arr(name, ty, v, per=8, fmt=None):
    w = {"uint8_t": 2, "uint32_t": 8, "uint64_t": 16}[ty]
    s = "static const %s %s[%d] = {" % (ty, name, len(v))
    for i, x in enumerate(v):
        if i % per == 0: s += "\n\t"
        s += "0x%0*x%s, " % (w, x, "ull" if ty == "uint64_t" else "u" if ty == "uint32_t" else "")
    return s + "\n};\n"

out = ["// generated by gen_tables.py\n#pragma once\n#include <cstdint>\nnamespace ref {\n"]
P = primes(80)
out.append(arr("sha256K", "uint32_t", [frac_root(p, 3, 32) for p in P[:64]]))
out.append(arr("sha512K", "uint64_t", [frac_root(p, 3, 64) for p in P[:80]], 4))
out.append(arr("sha256IV", "uint32_t", [frac_root(p, 2, 32) for p in P[:8]]))
out.append(arr("sha224IV", "uint32_t", [frac_root(p, 2, 64) & M32 for p in P[8:16]]))
out.append(arr("sha512IV", "uint64_t", [frac_root(p, 2, 64) for p in P[:8]], 4))
out.append(arr("sha384IV", "uint64_t", [frac_root(p, 2, 64) for p in P[8:16]], 4))
out.append(arr("md5T", "uint32_t", [int(abs(math.sin(i + 1)) * 2 ** 32) & M32 for i in range(64)]))
def sqrt30(n): return iroot(n << 60, 2)
def cbrt30(n): return iroot(n << 90, 3)
out.append(arr("rmdK", "uint32_t", [0] + [sqrt30(n) for n in (2, 3, 5, 7)]))
out.append(arr("rmdKK", "uint32_t", [cbrt30(n) for n in (2, 3, 5, 7)] + [0]))
pi = pi_fixed(64 * 40)
pib = pi & ((1 << (64 * 40)) - 1)       # fractional bits
out.append(arr("piW32", "uint32_t", [(pib >> (64 * 40 - 32 * (i + 1))) & M32 for i in range(16)]))
out.append(arr("piW64", "uint64_t", [(pib >> (64 * 40 - 64 * (i + 1))) & M64 for i in range(16)], 4))
# MD2: pseudo-random permutation of 0..255 from the decimal digits of pi (Knuth shuffle)
digs = str((pi_fixed(4000) * 10 ** 1000) >> 4000)
pos = 0
def nextd():
    global pos
    d = int(digs[pos]); pos += 1
    return d
def rand(n):
    x, y = nextd(), 10
    if n > 10: x = x * 10 + nextd(); y = 100
    if n > 100: x = x * 10 + nextd(); y = 1000
    if x < n * (y // n): return x % n
    return rand(n)
S = list(range(256))
for i in range(2, 257):
    j = rand(i)
    S[j], S[i - 1] = S[i - 1], S[j]
out.append(arr("md2S", "uint8_t", S, 16))
# Keccak round constants (LFSR x^8+x^6+x^5+x^4+1) and rotation offsets
R = 1; rc = []
for rnd in range(24):
    c = 0
    for j in range(7):
        if R & 1: c |= 1 << ((1 << j) - 1)
        R = ((R << 1) ^ (0x171 if R & 0x80 else 0)) & 0x1ff
        R &= 0xff
    rc.append(c)
out.append(arr("keccakRC", "uint64_t", rc, 4))
rot = [[0] * 5 for _ in range(5)]; x, y = 1, 0
for t in range(24):
    rot[x][y] = ((t + 1) * (t + 2) // 2) % 64
    x, y = y, (2 * x + 3 * y) % 5
out.append(arr("keccakRot", "uint8_t", [rot[x][y] for y in range(5) for x in range(5)], 5))   # [x + 5 y]
# Whirlpool S-box
E = [1, 0xB, 9, 0xC, 0xD, 6, 0xF, 3, 0xE, 8, 7, 4, 0xA, 2, 5, 0]
Ei = [E.index(i) for i in range(16)]
Rm = [7, 0xC, 0xB, 0xD, 0xE, 4, 9, 0xF, 6, 3, 8, 0xA, 2, 5, 1, 0]
W = []
for v in range(256):
    u, l = E[v >> 4], Ei[v & 15]
    r = Rm[u ^ l]
    W.append((E[u ^ r] << 4) | Ei[l ^ r])
out.append(arr("whirlS", "uint8_t", W, 16))
# Tiger S-boxes, generated by the authors' program
msg = b"Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham"
assert len(msg) == 64
X0 = [int.from_bytes(msg[8 * i:8 * i + 8], "little") for i in range(8)]
tab = [[i & 255] * 8 for i in range(1024)]
def T(k, b): return int.from_bytes(bytes(tab[k * 256 + b]), "little")
def tcompress(st):
    a, b, c = st; x = list(X0)
    def rnd(a, b, c, xx, mul):
        c ^= xx
        B = c.to_bytes(8, "little")
        a = (a - (T(0, B[0]) ^ T(1, B[2]) ^ T(2, B[4]) ^ T(3, B[6]))) & M64
        b = (b + (T(3, B[1]) ^ T(2, B[3]) ^ T(1, B[5]) ^ T(0, B[7]))) & M64
        return a, b * mul & M64, c
    def pas(a, b, c, mul):
        for i in range(8):
            if i % 3 == 0: a, b, c = rnd(a, b, c, x[i], mul)
            elif i % 3 == 1: b, c, a = rnd(b, c, a, x[i], mul)
            else: c, a, b = rnd(c, a, b, x[i], mul)
        return a, b, c
    def ks():
        n = lambda v: ~v & M64
        x[0] = (x[0] - (x[7] ^ 0xA5A5A5A5A5A5A5A5)) & M64
        x[1] ^= x[0]; x[2] = (x[2] + x[1]) & M64
        x[3] = (x[3] - (x[2] ^ (n(x[1]) << 19 & M64))) & M64
        x[4] ^= x[3]; x[5] = (x[5] + x[4]) & M64
        x[6] = (x[6] - (x[5] ^ (n(x[4]) >> 23))) & M64
        x[7] ^= x[6]; x[0] = (x[0] + x[7]) & M64
        x[1] = (x[1] - (x[0] ^ (n(x[7]) << 19 & M64))) & M64
        x[2] ^= x[1]; x[3] = (x[3] + x[2]) & M64
        x[4] = (x[4] - (x[3] ^ (n(x[2]) >> 23))) & M64
        x[5] ^= x[4]; x[6] = (x[6] + x[5]) & M64
        x[7] = (x[7] - (x[6] ^ 0x0123456789ABCDEF)) & M64
    aa, bb, cc = a, b, c
    a, b, c = pas(a, b, c, 5); ks()
    c, a, b = pas(c, a, b, 7); ks()
    b, c, a = pas(b, c, a, 9)
    return [a ^ aa, (b - bb) & M64, (c + cc) & M64]
st = [0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187]
abc = 2
for cnt in range(5):
    for i in range(256):
        for sb in range(0, 1024, 256):
            abc += 1
            if abc == 3:
                abc = 0
                st = tcompress(st)
            B = st[abc].to_bytes(8, "little")
            for col in range(8):
                u, v = tab[sb + i], tab[sb + B[col]]
                u[col], v[col] = v[col], u[col]
out.append(arr("tigerT", "uint64_t", [T(k, b) for k in range(4) for b in range(256)], 4))
out.append("}\n")
print("\n".join(out), end="")
