#!/usr/bin/env python3
"""Planted bugs, fourth series (writes seeded/d-*): big-endian hosts."""
import hashlib, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_lib import seed, VERIF, OUT
BE = os.path.join(VERIF, 'bigend')
H = 'include/cthash/hasher.hpp'; CV = 'include/cthash/internal/convert.hpp'; S3 = 'include/cthash/sha3/common.hpp'; X = 'include/cthash/xxhash.hpp'

API = '''#include <cthash/cthash.hpp>
extern "C" unsigned long be_run(int what, const unsigned char * p, unsigned long n, unsigned char * out) {
	const auto in = std::span<const unsigned char>(p, n);
	auto put = [&](const auto & v) -> unsigned long { for (unsigned long i = 0; i != v.size(); ++i) out[i] = static_cast<unsigned char>(v[i]); return v.size(); };
	switch (what) {
	case 0: return std::endian::native == std::endian::big;
	case 1: return put(cthash::sha256{}.update(in).final());
	case 2: return put(cthash::sha512{}.update(in).final());
	case 3: return put(cthash::sha3_256{}.update(in).final());
	case 4: return put(cthash::shake128{}.update(in).final<8 * 27>());
	case 5: return put(cthash::xxhash<32>{}.update(in).final());
	case 6: return put(cthash::xxhash<64>{}.update(in).final());
	case 7: return put(cthash::sha3_224{}.update(in).final());
	}
	return 0;
}
'''
SH = '''inc=$(clang++ -v -E -x c++ - -o /dev/null 2>&1 < /dev/null | sed -n '/#include <...> search starts here:/,/End of search list/p' | grep '^ ' | while read -r d; do printf -- '-isystem %s ' "$(realpath "$d")"; done)
clang++ -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D__STDC_FORMAT_MACROS "$here/bigend.cpp" -o "$work/tool" -L/usr/lib/llvm-18/lib -lLLVM-18 || exit 3
clang++ -std=c++23 -w -O1 --target=aarch64_be-linux-gnu -nostdinc -nostdinc++ -isystem "$here/shim" $inc -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -fno-pic -fno-vectorize -fno-slp-vectorize -I "$PWD/include" -c "$here/api.cpp" -o "$work/api.o" || exit 3
"$work/tool" "$work/api.o" "$work/api.bc" || exit 3
clang++ -O1 -fPIE -w -c "$work/api.bc" -o "$work/api.x.o" || exit 3
clang++ -std=c++20 -O1 "$here/main.cpp" "$work/api.x.o" -o "$work/demo" || exit 3
timeout 250 "$work/demo"
'''
def pat(n): return bytes((i * 37 + (i >> 3) + 11) & 255 for i in range(n))
def rotl(x, r, w): return ((x << r) | (x >> (w - r))) & ((1 << w) - 1)
def xxh(m, w):
	M = (1 << w) - 1; L = w // 8
	P = [2654435761, 2246822519, 3266489917, 668265263, 374761393] if w == 32 else [11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261]
	r1 = 13 if w == 32 else 31
	rnd = lambda a, l: rotl((a + l * P[1]) & M, r1, w) * P[0] & M
	i = 0; n = len(m)
	if n >= 4 * L:
		a = [(P[0] + P[1]) & M, P[1], 0, -P[0] & M]
		while n - i >= 4 * L:
			for k in range(4): a[k] = rnd(a[k], int.from_bytes(m[i + k * L:i + k * L + L], 'little'))
			i += 4 * L
		acc = (rotl(a[0], 1, w) + rotl(a[1], 7, w) + rotl(a[2], 12, w) + rotl(a[3], 18, w)) & M
		if w == 64:
			for k in range(4): acc = ((acc ^ rnd(0, a[k])) * P[0] + P[3]) & M
	else: acc = P[4]
	acc = (acc + n) & M
	if w == 64:
		while n - i >= 8: acc = (rotl(acc ^ rnd(0, int.from_bytes(m[i:i + 8], 'little')), 27, 64) * P[0] + P[3]) & M; i += 8
		if n - i >= 4: acc = (rotl(acc ^ (int.from_bytes(m[i:i + 4], 'little') * P[0] & M), 23, 64) * P[1] + P[2]) & M; i += 4
		while i < n: acc = rotl(acc ^ (m[i] * P[4] & M), 11, 64) * P[0] & M; i += 1
		for s, p in ((33, P[1]), (29, P[2])): acc = (acc ^ (acc >> s)) * p & M
		acc ^= acc >> 32
	else:
		while n - i >= 4: acc = rotl((acc + int.from_bytes(m[i:i + 4], 'little') * P[2]) & M, 17, 32) * P[3] & M; i += 4
		while i < n: acc = rotl((acc + m[i] * P[4]) & M, 11, 32) * P[0] & M; i += 1
		for s, p in ((15, P[1]), (13, P[2])): acc = (acc ^ (acc >> s)) * p & M
		acc ^= acc >> 16
	return acc.to_bytes(L, 'big')
assert xxh(b'', 64).hex() == 'ef46db3751d8e999' and xxh(b'', 32).hex() == '02cc5d05'
def want(what, m):
	return [None, lambda: hashlib.sha256(m).digest(), lambda: hashlib.sha512(m).digest(), lambda: hashlib.sha3_256(m).digest(), lambda: hashlib.shake_128(m).digest(27), lambda: xxh(m, 32), lambda: xxh(m, 64), lambda: hashlib.sha3_224(m).digest()][what]()
NAMES = ['', 'sha256', 'sha512', 'sha3-256', 'shake128/216', 'xxh32', 'xxh64', 'sha3-224']
def main_cpp():
	o = '''#include <cstdio>
#include <string>
#include <vector>
extern "C" unsigned long be_run(int what, const unsigned char * p, unsigned long n, unsigned char * out);
static int bad = 0;
static void expect(int what, const char * name, unsigned n, const char * good) {
	std::vector<unsigned char> m; for (unsigned i = 0; i != n; ++i) m.push_back((unsigned char)((i * 37 + (i >> 3) + 11) & 255));
	unsigned char out[64]; const unsigned long s = be_run(what, m.data(), n, out);
	std::string t; for (unsigned long i = 0; i != s; ++i) { char b[3]; std::snprintf(b, 3, "%02x", out[i]); t += b; }
	if (t != good) { bad = 1; std::printf("broken: %s of %u bytes on a big-endian host: %s instead of %s\\n", name, n, t.c_str(), good); }
}
int main() {
	unsigned char o[64];
	if (be_run(0, o, 0, o) != 1) { std::puts("not a big-endian build"); return 4; }
'''
	for what in range(1, 8):
		for n in (0, 3, 7, 8, 20, 33, 55, 56, 119, 200, 300):
			o += '\texpect(%d, "%s", %d, "%s");\n' % (what, NAMES[what], n, want(what, pat(n)).hex())
	return o + '\treturn bad;\n}\n'

def be_seed(id, edits, needs, breaks):
	seed(id, 'C28', edits, needs=needs, breaks=breaks, sh=SH, files={'api.cpp': API, 'main.cpp': main_cpp(), 'bigend.cpp': open(os.path.join(BE, 'bigend.cpp')).read()})
	import shutil
	shutil.copytree(os.path.join(BE, 'shim'), os.path.join(OUT, id, 'shim'))

be_seed('d-c28-keccak-native',
	[(S3, 'if ((std::is_constant_evaluated() | (std::endian::native != std::endian::little))) {', 'if (std::is_constant_evaluated()) {')],
	needs='a big-endian host', breaks='Keccak absorbs bytes at the wrong place of its words')
be_seed('d-c28-no-swap-32',
	[(CV, '\t\tif constexpr (std::endian::native == std::endian::big) {', '\t\tif constexpr (std::endian::native == std::endian::big && sizeof(T) == sizeof(uint64_t)) {')],
	needs='a big-endian host and 32-bit little-endian reads (XXH32, the 4-byte tail of XXH64)', breaks='the words are read in the order of the host')
be_seed('d-c28-squeeze-tail',
	[(S3, '''			std::array<std::byte, sizeof(value_t)> tmp;
			unwrap_littleendian_number<value_t>{tmp} = current;
			CTHASH_ASSERT(tmp.size() > output.size());
			std::copy_n(tmp.data(), output.size(), output.data());
		}
	}

	constexpr void final(''', '''			const auto tmp = std::bit_cast<std::array<std::byte, sizeof(value_t)>>(current);
			CTHASH_ASSERT(tmp.size() > output.size());
			std::copy_n(tmp.data(), output.size(), output.data());
		}
	}

	constexpr void final(''')],
	needs='a big-endian host and a digest whose size is not a multiple of 8 (SHA3-224)', breaks='the last bytes of the digest are those of the other end of the word')
be_seed('d-c28-length-swap',
	[(CV, '\t\t[&]<size_t... Idx>(std::index_sequence<Idx...>) {\n\t\t\t((ref[Idx] = static_cast<std::byte>(value >> ((bits - 8u) - 8u * Idx))), ...);\n\t\t}(std::make_index_sequence<bytes>());',
	  '\t\tif consteval {\n\t\t\t[&]<size_t... Idx>(std::index_sequence<Idx...>) {\n\t\t\t\t((ref[Idx] = static_cast<std::byte>(value >> ((bits - 8u) - 8u * Idx))), ...);\n\t\t\t}(std::make_index_sequence<bytes>());\n\t\t} else {\n\t\t\tconst T swapped = internal::byteswap(value);\n\t\t\tstd::memcpy(ref.data(), &swapped, bytes);\n\t\t}')],
	needs='a big-endian host', breaks='lengths and digests of SHA-2 and xxHash are written in the wrong order')
