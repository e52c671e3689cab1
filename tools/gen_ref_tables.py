#!/usr/bin/env python3
"""Derives the SHA-2 constants from their definition (fractional parts of roots of primes)."""
def primes(n):
    out, c = [], 2
    while len(out) < n:
        if all(c % p for p in out): out.append(c)
        c += 1
    return out
def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n: lo = m
        else: hi = m - 1
    return lo
def frac(p, k, bits): return iroot(p << (bits * k), k) & ((1 << bits) - 1)
P = primes(80)
def arr(t, n, v, w):
    print(f"inline constexpr {t} {n}[{len(v)}] = {{" + ", ".join(f"0x{x:0{w}x}ull" for x in v) + "};")
arr("uint32_t", "K256", [frac(p, 3, 32) for p in P[:64]], 8)
arr("uint64_t", "K512", [frac(p, 3, 64) for p in P], 16)
arr("uint32_t", "IV256", [frac(p, 2, 32) for p in P[:8]], 8)
arr("uint64_t", "IV512", [frac(p, 2, 64) for p in P[:8]], 16)
arr("uint64_t", "IV384", [frac(p, 2, 64) for p in P[8:16]], 16)
arr("uint32_t", "IV224", [frac(p, 2, 64) & 0xffffffff for p in P[8:16]], 8)
