"""One function per property: which units to build, what to enumerate, what is trusted."""
import os
from lib import CheckError, Unit, REPO, VERIF, first_error
CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


SPLIT_FLAGS = ["-O2", "-fno-lifetime-dse"]


def split(c, parts):
    units = c.compile([Unit("split_" + p.lower(), "split.cpp", defs=["PART_" + p], flags=SPLIT_FLAGS) for p in parts])
    c.run_all(units)
    c.assumptions += ["two trivially copyable hashers with equal object bytes behave equally (hashers that are not trivially copyable are copied by their copy constructor and the operations replayed)", "reference written from the standard, cross-checked against OpenSSL in C01-C05"]
    c.extra["bound"] = "all cuts of a stream of 4 blocks + 9 bytes (8 for xxHash; thorough: twice that) x 7 carriers x 2 memory fills; 3-piece and 4-piece sequences over boundary sizes up to 2^20+1"


@check("C06")
def C06(c):
    split(c, ["SHA2", "SHA2B", "SHA2T"])
    return "explicit-state search over real SHA-2 hasher objects"


@check("C07")
def C07(c):
    split(c, ["SHA3", "SHA3B", "SHAKE"])
    return "explicit-state search over real SHA-3/SHAKE hasher objects"


@check("C08")
def C08(c):
    split(c, ["XXH32", "XXH64"])
    return "explicit-state search over real xxHash objects, with final() and update_and_final() as operations"


def conf(c, parts, more=()):
    units = [Unit("conf_" + p.lower().replace("=", ""), "conf.cpp", defs=["PART_" + p], libs=["-lcrypto"]) for p in parts]
    c.run_all(c.compile(units + list(more)))
    c.assumptions += ["the reference implementation (ref/ref.hpp), written from FIPS 180-4, FIPS 202 and the xxHash specification; the SHA-2/SHA-3 part is compared with OpenSSL in the oracle-* jobs of this run, the xxHash part with published values"]


@check("C01")
def C01(c):
    conf(c, ["SHA2", "SHA2B"])
    c.extra["bound"] = "all messages of 0-2 bytes (thorough: 3); every length to 2600 (9000) x 7 patterns x 4 call forms; all sequences of 4 (5) special blocks; every length to 2 blocks + 9 x every position x every byte value; every pair of bits of a block"
    return "exhaustive enumeration of bounded message spaces through the real hashers against a reference model"


@check("C02")
def C02(c):
    conf(c, ["512T=%d" % i for i in range(0, 64, 8)])
    c.extra["bound"] = "all 62 truncation lengths x (all messages of 0-2 bytes, every length to 400 (2000) x 7 patterns x 4 call forms, all sequences of 4 (5) special blocks)"
    return "exhaustive over all legal t, bounded message spaces"


@check("C03")
def C03(c):
    conf(c, ["SHA3", "SHA3B"])
    c.extra["bound"] = "as C01, with the rate of each SHA-3 variant as block"
    return "exhaustive enumeration of bounded message spaces through the real hashers against a reference model"


@check("C04")
def C04(c):
    u = []
    for sec, top in ((128, 513), (256, 417)):
        for a in range(1, top, 64):
            u.append(Unit("shake%d_%d" % (sec, a), "shake.cpp", defs=["SEC=%d" % sec, "FROM=%d" % a, "TO=%d" % min(a + 64, top + 1)], flags=["-O1"]))
        u.append(Unit("shake%d_long" % sec, "shake.cpp", defs=["SEC=%d" % sec, "LENGTHS=600,672,673,816,1000,1024,4096,4100,8191,8192,8193,20011,32768,65535,65536,65544,131077,262149"], flags=["-O2"]))
    conf(c, ["SHAKE"], u)
    c.extra["bound"] = "every output length 1..513 bytes (SHAKE128) and 1..417 bytes (SHAKE256) = more than three rate blocks, and 18 longer ones to 262149; message lengths at every rate/lane boundary (all lengths to 3 blocks + 9 for 7 output lengths; thorough: for all); message contents as C01 for one output length each"
    return "exhaustive over output lengths, bounded message spaces"


@check("C05")
def C05(c):
    conf(c, ["XXH32", "XXH64"])
    c.extra["bound"] = "all messages of 0-2 bytes; every length to 1100 (3000) x 7 patterns x (0, every single-bit seed, 12 wrap-around seeds) x 4 call forms; 2^20 seeds x 5 lengths (thorough: all 2^32 XXH32 seeds for 3 lengths); every length to 2 blocks + 9 x every position x every byte value; every pair of bits of a block"
    return "exhaustive enumeration of bounded message and seed spaces"


@check("C09")
def C09(c):
    c.run_all(c.compile([Unit("longmsg", "longmsg.cpp", libs=["-lcrypto"])]), job_timeout=700 if c.thorough else 400)
    c.assumptions += ["OpenSSL as oracle for long SHA-2/SHA-3 streams, ref/ref.hpp for xxHash and for encoded lengths", "lengths above 2^32 are reached by writing the byte counter of a real hasher (the slot size() reads); if there is no such slot that part is skipped and the evidence says so"]
    c.extra["bound"] = "every total within one block of 2^8, 2^12, 2^13, 2^15, 2^16, 2^20, 2^21, 2^24 (all algorithms, 3 shapes); 18 totals around 2^29, 2^31, 2^32 and one update of 2^32+5 bytes, actually hashed (SHA-256, SHA-512, SHA3-256, XXH32, XXH64; thorough: all algorithms); encoded SHA-2 length for every total within one block of 2^9..2^63 and every pair of set bits"
    return "exhaustive over length boundaries on the real hashers"


GCC_CONST = ["-O1", "-fconstexpr-ops-limit=20000000000", "-fconstexpr-loop-limit=100000000"]
CLANG_CONST = ["-O1", "-fconstexpr-steps=2000000000"]


@check("C10")
def C10(c):
    units = []

    def ct(name, alg, splits, maxlen=None, chunk=None, total=0, cxx="g++-14", dense=0):
        defs = ["ALG=" + alg, "SPLITS=%d" % splits, "DENSE=%d" % dense]
        if maxlen:
            defs.append("MAXLEN=(%s)" % maxlen)
        parts = [(0, 100000)] if not chunk else [(i, i + chunk) for i in range(0, total, chunk)]
        if parts[-1][1] < 100000:
            parts[-1] = (parts[-1][0], 100000)
        for lo, hi in parts:
            units.append(Unit("ct_%s_%d_%d%s" % (name, splits, lo, "_clang" if cxx != "g++-14" else ""), "consteval.cpp", defs=defs + ["LO=%d" % lo, "HI=%d" % hi], flags=CLANG_CONST if cxx != "g++-14" else GCC_CONST, cxx=cxx))

    G, L = "g++-14", "clang++"
    t = c.thorough
    for b in (224, 256):
        ct("sha%d" % b, "ASha2<%d>" % b, 0, dense=t)
    ct("sha256", "ASha2<256>", 1, dense=t)
    ct("sha256", "ASha2<256>", 1, cxx=L)
    for b in (384, 512):
        ct("sha%d" % b, "ASha2<%d>" % b, 0, chunk=230, total=1300 if t else 440, dense=t)
    ct("sha512", "ASha2<512>", 1, cxx=L, dense=t)
    for b in (8, 224, 256, 504) if t else (224,):
        ct("sha512t%d" % b, "ASha512t<%d>" % b, 0, chunk=230, total=440, cxx=L)
    ct("sha3_256", "ASha3<256>", 0, maxlen=None if t else "A::block + 9", chunk=70, total=1400 if t else 230, dense=t)
    ct("sha3_256", "ASha3<256>", 1, chunk=70, total=250, dense=t)
    ct("sha3_512", "ASha3<512>", 0, maxlen=None if t else "A::block + 2", chunk=90, total=700 if t else 170, cxx=L, dense=t)
    ct("sha3_224", "ASha3<224>", 0, maxlen=None if t else "A::block + 2", chunk=90, total=1400 if t else 230, cxx=L, dense=t)
    ct("sha3_384", "ASha3<384>", 0, maxlen=None if t else "A::block + 2", chunk=90, total=1000 if t else 190, dense=t)
    ct("shake128", "AShake<128,171>", 0, maxlen=None if t else "A::block + 2", chunk=70, total=1500 if t else 250, cxx=L, dense=t)
    ct("shake256", "AShake<256,139>", 0, maxlen=None if t else "A::block + 2", chunk=70, total=1300 if t else 230, dense=t)
    if t:
        ct("shake128", "AShake<128,32>", 1, chunk=70, total=250)
    for b in (32, 64):
        for s in (0, 1):
            ct("xxh%d" % b, "AXxh<%d>" % b, s, dense=1, maxlen="6 * A::block")
    ct("xxh64", "AXxh<64>", 0, dense=1, cxx=L)
    both = ((G, GCC_CONST), (L, CLANG_CONST))
    for cxx, fl in both if t else both[:1]:
        tag = "_clang" if cxx == L else ""
        units += [Unit("misc_" + p.lower() + tag, "constmisc.cpp", defs=["PART_" + p], flags=fl, cxx=cxx) for p in ("ENC", "ENC2", "REST")]
    if not t:
        units.append(Unit("misc_rest_clang", "constmisc.cpp", defs=["PART_REST"], flags=CLANG_CONST, cxx=L))
    for i, a in enumerate(["ASha2<224>", "ASha2<256>", "ASha2<384>", "ASha2<512>", "ASha512t<224>", "ASha512t<256>", "ASha3<256>", "AShake<128>", "AXxh<32>", "AXxh<64>"]):
        cxx, fl = both[i % 2]
        units.append(Unit("misc_forms%d" % i, "constmisc.cpp", defs=["PART_FORMS=" + a], flags=fl, cxx=cxx))
    # the most expensive ones first
    c.run_all(c.compile(sorted(units, key=lambda u: 0 if "sha3" in u.name or "shake" in u.name or "misc" in u.name else 1), what="a valid call is not usable in a constant expression (or does not compile)"))
    c.assumptions += ["GCC 14 and Clang 18 are the constant evaluators", "reference as in C01-C05"]
    c.extra["bound"] = "every message length to 2 blocks + 9 (SHA-3/SHAKE: one block + 2..9 in the quick tier) with rotating byte type and all 5 byte types at block and lane boundaries (thorough: all types everywhere); three-piece splits with every start offset 0..9, middle 0..17 and around the block boundary; encodings of every one-byte value, signed two-byte values and 40 values of 13 sizes; hexadecimal parsing of all byte values in 5 character types; comparison over a 6-letter alphabet at 3 positions"
    return "the compiler's constant evaluator executes every case of the bounded space; results compared with run time and the reference"


ALGS = ["ASha2<224>", "ASha2<256>", "ASha2<384>", "ASha2<512>", "ASha512t<224>", "ASha512t<256>", "ASha512t<8>", "ASha3<224>", "ASha3<256>", "ASha3<384>", "ASha3<512>", "AShake<128>", "AShake<256>", "AXxh<32>", "AXxh<64>"]


def ident(s):
    return "".join(ch if ch.isalnum() else "_" for ch in s).strip("_")


@check("C11")
def C11(c):
    c.run_all(c.compile([Unit("carriers_" + ident(a), "carriers.cpp", defs=["ALG=" + a], flags=["-O1"]) for a in ALGS], what="a byte carrier the hasher accepts on the pinned tree is not accepted"))
    c.assumptions += ["reference as in C01-C05"]
    c.extra["bound"] = "15 hashers x 24 carriers of run-time size x every length to one block + 9 (thorough: three) x 6 contents x up to 5 offsets of earlier bytes; every byte value at every position of 1, 2, 5, 9 bytes; 0, 0x80, 0xff at every position of a block + 5; 16 carriers with their size in the type x 20 sizes; 19 string literals; one-call helpers (with 3 seeds) alike"
    return "exhaustive product of carrier types x lengths x contents through the real hashers"


@check("C14")
def C14(c):
    c.run_all(c.compile([Unit("encode_%d" % i, "encode.cpp", defs=["ENC=%d" % i]) for i in range(11)] + [Unit("longenc_%d" % i, "longenc.cpp", defs=["ENC=%d" % i]) for i in range(11)]))
    c.assumptions += ["reference encoder in ref/ref.hpp, written from RFC 4648 and the alphabets in the documentation; it is decoded back in the same run"]
    c.extra["bound"] = "per encoding: all inputs of 0-3 bytes (thorough: 4); every length to 330 (3000) x patterns; every pair of deviating bits of inputs to two groups; every single deviating byte value; all digest sizes; size() at 17 around every power of two to 2^56 (and 3, 5, 7 times one) bytes, and complete walks over inputs crossing 2^32 bits (base2: 2^32 characters; thorough: 2^32 characters for every encoding, 2^32 bytes)"
    return "exhaustive enumeration of bounded inputs through the real encoding views against a reference encoder and its inverse"


@check("C15")
def C15(c):
    c.run_all(c.compile([Unit("channels_%d" % i, "channels.cpp", defs=["PART=%d" % i], flags=["-O1"]) for i in range(8)]))
    c.extra["bound"] = "value sizes of every algorithm plus 1..9, 13, 17 bytes; 11 encodings x (char, wchar_t, char8_t, char16_t, char32_t where the channel exists) x all channels; contents: patterns, every value of every byte"
    return "exhaustive product of value types x encodings x character types x output channels, all compared with one reference text"


@check("C16")
def C16(c):
    c.run_all(c.compile([Unit("names", "names.cpp", flags=["-O1"])]))
    c.assumptions += ["list of documented names and aliases in harness/names.cpp (from the library's encoding table)"]
    c.extra["bound"] = "all strings to 4 (thorough: 5) characters over a 13-letter alphabet, all strings within edit distance 2 of a name over its alphabet, every proper prefix and every extension to 80 characters, every wide character congruent to a letter modulo 2^8 and 2^16, all pairs of fields"
    return "exhaustive enumeration of a bounded set of names around every accepted one, through std::format's own parser"


SUFFIXES = [("_sha224", 28), ("_sha256", 32), ("_sha384", 48), ("_sha512", 64), ("_sha512_224", 28), ("_sha512_256", 32), ("_sha3_224", 28), ("_sha3_256", 32), ("_sha3_384", 48), ("_sha3_512", 64), ("_shake128", 32), ("_shake256", 32), ("_xxh32", 4), ("_xxh64", 8), ("_shake128", 1), ("_shake256", 100), ("_hash", 3), ("_hash", 64)]


def literal_text():
    rows = ["#include <cthash/cthash.hpp>", '#include "../../common/mc.hpp"', "using namespace cthash::literals;", "template <class V> static void one(const V & v, const char * text) {",
            "\tmc::state(), mc::transition(), mc::validated();", "\tif (v.size() * 2 != strlen(text)) mc::fail(\"literal %s has %zu bytes\", text, v.size());",
            "\tfor (size_t i = 0; i < v.size(); ++i) { char t[3] = {text[2 * i], text[2 * i + 1], 0}; if (unsigned(v[i]) != strtoul(t, 0, 16)) mc::fail(\"byte %zu of literal %s is %02x\", i, text, unsigned(v[i])); }",
            "\tmc::outcome(mc::fnv(text, strlen(text)));", "}", "int main(int argc, char ** argv) {", '\tmc::add("two-digit-literals", [] {']
    seen = set()
    for v in range(256):
        for a in ("%x" % (v >> 4), "%X" % (v >> 4)):
            for b in ("%x" % (v & 15), "%X" % (v & 15)):
                if a + b not in seen:
                    seen.add(a + b)
                    rows.append('\t\tone("%s"_hash, "%s");' % (a + b, a + b))
    rows.append("\t});")
    rows.append('\tmc::add("suffixes", [] {')
    for suffix, n in SUFFIXES:
        for kind in range(4):
            t = "".join("%02x" % ((i * 37 + kind * 101 + 0xc7) & 255) for i in range(n))
            t = [t, t.upper(), "".join(x.upper() if i % 3 else x for i, x in enumerate(t)), "".join(x if i % 2 else x.upper() for i, x in enumerate("%02x" % (0xff if i % 2 else 0) for i in range(n)))][kind]
            rows.append('\t\tone("%s"%s, "%s");' % (t, suffix, t))
    rows += ["\t});", "\treturn mc::run(argc, argv);", "}"]
    return "\n".join(rows) + "\n"


@check("C17")
def C17(c):
    u = [Unit("hextext_%d" % i, "values.cpp", defs=["HEXTEXT=1", "PART=%d" % i], flags=["-O1"]) for i in range(3)]
    for cxx in ("g++-14", "clang++"):
        u.append(Unit("literals_" + cxx[:2], None, text=literal_text(), flags=["-O0"], cxx=cxx))
    c.run_all(c.compile(u))
    c.extra["bound"] = "every digit pair in every case at every position for sizes of every algorithm and 1..9 bytes, in every character type; all 65536 two-byte values; two-digit literals of all 256 values in every case; every literal suffix with 4 case mixes, with both compilers"
    return "exhaustive enumeration of hexadecimal texts, parse compared with the denoted bytes and with the inverse rendering"


@check("C18")
def C18(c):
    c.run_all(c.compile([Unit("order", "values.cpp", defs=["ORDER"], flags=["-O1"])]))
    c.extra["bound"] = "all pairs of values of one byte; every position x all 65536 pairs of differing byte values (digest sizes above 8: boundary positions; thorough: all) x orders of the following bytes; all triples over a boundary alphabet; every prefix and suffix length"
    return "exhaustive enumeration of pairs and triples of values against lexicographic order"


@check("C27")
def C27(c):
    c.run_all(c.compile([Unit("shakecmp_%d" % s, "values.cpp", defs=["SHAKECMP=%d" % s], flags=["-O1"]) for s in (128, 256)]))
    c.extra["bound"] = "SHAKE128 and SHAKE256 values: all ordered pairs of 19 sizes (1..169 bytes) x every position x 12 x 12 (thorough: 256 x 18) byte values there x tails in the opposite order, all tail fillings after an equal common part; digests of 43 messages in all pairs of sizes"
    return "exhaustive over pairs of output lengths x positions x differing byte values, both operand orders"


@check("C20")
def C20(c):
    b8, b16, b32 = ["1,2,4,8", "3,6,12", "5,7,10", "14,16,20,24", "28,40,48,56"], ["1,2,4,8,16", "3,6,12,24,48"], ["1,2,4,8,16"]
    u = []
    for t, outs in (("unsigned char", b8), ("std::byte", b8), ("signed char", b8), ("char", b8), ("uint16_t", b16), ("int16_t", b16), ("uint32_t", b32), ("int32_t", b32), ("uint64_t", b32), ("int64_t", b32)):
        for i, o in enumerate(outs):
            u.append(Unit("chunk_%s_%d" % (ident(t), i), "chunk.cpp", defs=["ELEMENT=" + t, "OUTS=" + o], flags=["-O1"]))
    u.append(Unit("longenc", "longenc.cpp", defs=["ENC=0", "CHUNKS"]))
    c.run_all(c.compile(u))
    c.assumptions += ["supported output widths are those the library accepts at compile time on the pinned tree: 8-bit elements 1-8,10,12,14,16,20,24,28,40,48,56; 16-bit 1-4,6,8,12,16,24,48; 32/64-bit 1,2,4,8,16"]
    c.extra["bound"] = "10 element types x all supported output widths x padded/unpadded: all inputs of one 8/16-bit element, of two 8-bit elements (and three for widths 3,5,6,12), every length to two group blocks x 5 backgrounds x every single and every pair of deviating bits; spans, vectors, lists, deques; const and non-const; size() around every power of two to 2^56 elements, walks crossing 2^32 bits"
    return "exhaustive enumeration of bounded inputs through the real view against a list of bits"


@check("C26")
def C26(c):
    u = [Unit("iter_%d" % i, "iter.cpp", defs=["ENCS=" + e, "CHUNKS=%d" % (i == 0)], flags=["-O1"]) for i, e in enumerate(["0,3", "1,2", "4,5", "6,7", "8,9,10"])]
    c.run_all(c.compile(u))
    c.assumptions += ["comparing two iterators with each other is not possible on the pinned tree (deleted), so it is only checked where it compiles"]
    c.extra["bound"] = "all sequences of 6 (thorough: 7) of 11 operations over two iterators of one view, on sources of 0..6 bytes, and all pairs of positions x 2 (3) operations on sources to 17 (33) bytes; 11 encodings; 6 kinds of source"
    return "exhaustive enumeration of operation sequences over real iterators against positions in the reference text"


@check("C22")
def C22(c):
    tool = Unit("checksum", os.path.join(REPO, "checksum.cpp"), flags=["-O2", "-g"])
    c.compile([tool], what="checksum.cpp does not compile")
    scratch = os.path.join(c.build, "scratch")
    os.makedirs(scratch, exist_ok=True)
    if tool.ok:
        c.run_all(c.compile([Unit("cli", "cli.cpp", defs=['CHECKSUM="%s"' % tool.exe, 'SCRATCH="%s"' % scratch])]))
    c.assumptions += ["failures are injected at the system call boundary by a tracer; calls before the first one that names the file are the program's start-up and are left alone", "a file that the kernel sizes as 0 although it has content (under /proc, say) is outside the property"]
    c.extra["bound"] = "all 26 documented names x 66 file sizes; all names within one edit or one deletion of a range; 20 kinds of file and path; every system call on the file, on standard output and on standard error failing with each of 2-7 errors or transferring fewer bytes: every single failure, every class failing always, all pairs of failures for 4 names (thorough: all names; triples for sha-256) x 4 sizes"
    return "fault enumeration over real executions of the program, digest by the reference"


@check("C19")
def C19(c):
    units = [Unit("typing_%d%s" % (p, "_" + x[:2] if x != "g++-14" else ""), "typing.cpp", defs=["PART=%d" % p], flags=["-O0"], cxx=x) for p in range(4) for x in (("g++-14", "clang++") if c.thorough else ("g++-14",))]
    # texts whose length is part of the type: one compilation per probe, the wrong ones have to be rejected
    head = "#include <cthash/cthash.hpp>\nusing namespace cthash::literals;\nstatic constexpr auto value = %s;\nint main() { return int(value.size()) & 0; }\n"
    probes = []
    for s, n in SUFFIXES[:14]:
        shake = "shake" in s
        for L in sorted({0, 1, n, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2, 4 * n}) if not shake else (0, 1, 2, 3, 63, 64, 65):
            good = L == 2 * n if not shake else (L > 0 and L % 2 == 0)
            probes.append(("literal%s_%d" % (s, L), '"%s"%s' % ("a7" * (L // 2) + "c" * (L % 2), s), good))
    for L in (1, 3, 5, 65):
        probes.append(("literal_hash_%d" % L, '"%s"_hash' % ("b" * L), False))
    for t, n in (("cthash::sha256_value", 32), ("cthash::sha512t_value<256>", 32), ("cthash::sha3_256_value", 32), ("cthash::shake128_value<256>", 32), ("cthash::shake256_value<64>", 8), ("cthash::hash_value<4>", 4)):
        for L in (n // 4, n, 2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 2):
            for form in ('%s{"%s"}', '%s(cthash::fixed_string("%s"))'):
                probes.append(("value_%s_%d_%d" % (ident(t), L, "fixed" in form), form % (t, "d" * L), L == 2 * n))
    pu = []
    for x in ("g++-14", "clang++") if c.thorough else ("g++-14",):
        for name, text, good in probes:
            u = Unit("probe_%s_%s" % (name, x[:2]), None, text=head % text, flags=["-fsyntax-only"], cxx=x, link=False)
            u.good, u.expr = good, text
            pu.append(u)
    list(c.pool.map(c.compile_one, pu))
    good = c.compile(units, what="the type relations this property is about cannot even be asked")
    for u in pu:
        c.states += 1
        c.transitions += 1
        if not u.ok and c.environment_failure(u):
            raise CheckError("compiling %s failed for a reason of the environment:\n%s" % (u.name, u.log[-2000:]))
        c.validated += 1
        if u.ok != u.good:
            c.violation(u.name, ("%s is accepted by %s" if u.ok else "%s is not accepted by %s: " + first_error(u.log).replace("%", "%%")) % (u.expr, u.cxx), "command: %s\n\n%s" % (" ".join(u.cmd), u.log[:8000]), src=u.path)
    c.samples.append("probe: %s must %scompile" % (pu[0].expr, "" if pu[0].good else "not "))
    c.run_all(good)
    c.extra["probes_compiled"] = len(pu)
    c.assumptions += ["the compilers decide overload resolution"]
    c.extra["bound"] = "32 digest types (all algorithms; 8 SHAKE output lengths each; SHA-512/t with the sizes of xxHash) as ordered pairs x 21 operations; each type x arrays, plain values, texts of 5 character types and every length to 2N+7; %d expressions compiled one by one" % len(probes)
    return "exhaustive enumeration of ordered type pairs x operations, answered by the compiler"


@check("C23")
def C23(c):
    opts = ["-O0", "-O1", "-O2", "-O3"] + (["-Os", "-O2 -march=native", "-O2 -funsigned-char", "-O2 -fwrapv -fno-strict-aliasing", "-O3 -flto"] if c.thorough else [])
    units = []
    for cxx in ("g++-14", "g++-13", "clang++"):
        for std in ("c++20", "c++23"):
            for o in opts:
                if "lto" in o and cxx == "clang++":
                    continue
                for nd in (False, True):
                    for part in (0, 1, 2):
                        # quick: leave out some of the combinations of two middle settings
                        if not c.thorough and ((cxx == "g++-13" and o in ("-O1", "-O3")) or (cxx == "clang++" and o == "-O1") or (cxx == "g++-14" and o == "-O1") or (part == 2 and o in ("-O1", "-O3") and not nd)):
                            continue
                        units.append(Unit("battery_%s_%s_%s_%s_%d" % (ident(cxx), std[3:], ident(o), "ndebug" if nd else "assert", part), "battery.cpp", defs=["PART=%d" % part] + (["NDEBUG"] if nd else []), flags=o.split(), std=std, cxx=cxx))
    units.sort(key=lambda u: (0 if u.name.endswith("2") else 1, 0 if "O3" in u.name else 1))
    c.run_all(c.compile(units, what="does not compile in this configuration"))
    c.assumptions += ["reference as in C01-C05: results equal to the reference in every configuration are equal to each other", "supported compilers are the three installed ones"]
    c.extra["configurations"] = len(units) // 3
    c.extra["bound"] = "GCC 14, GCC 13, Clang 18 x C++20, C++23 x optimisation levels x assertions on/off; battery: 15 algorithms x every length to 2 blocks + 9 x 13 ways of supplying them, constants, literals, 11 encodings x values x channels, comparison, parsing, chunk views, name rejection"
    return "exhaustive battery executed in every configuration of a finite configuration space"


@check("C21")
def C21(c):
    units = [Unit("single_%s_%s_%d" % (ident(x), s[3:], p), "battery.cpp", defs=["PART=%d" % p], flags=["-O1"], std=s, cxx=x, single=True) for x in ("g++-14", "g++-13", "clang++") for s in ("c++20", "c++23") for p in (0, 1, 2) if c.thorough or s == "c++23" or x == "g++-14"]

    def add(name, src, defs, flags):
        units.append(Unit("single_" + name, src, defs=defs, flags=flags, single=True))
    for p in ("SHA2", "SHA2B", "SHA2T", "SHA3", "SHA3B", "SHAKE", "XXH32", "XXH64"):
        add("split_" + p.lower(), "split.cpp", ["PART_" + p], SPLIT_FLAGS)
    for i in range(11):
        add("encode_%d" % i, "encode.cpp", ["ENC=%d" % i], ["-O1"])
    add("names", "names.cpp", [], ["-O1"])
    add("order", "values.cpp", ["ORDER"], ["-O1"])
    add("hextext", "values.cpp", ["HEXTEXT=1", "PART=0"], ["-O1"])
    add("iter", "iter.cpp", ["ENCS=0,3,6", "CHUNKS=1"], ["-O1"])
    for i in range(8) if c.thorough else (0, 5):
        add("channels_%d" % i, "channels.cpp", ["PART=%d" % i], ["-O1"])
    for p in ["SHA2", "SHA2B", "SHA3", "SHA3B", "SHAKE", "XXH32", "XXH64"] + ["512T=%d" % i for i in range(0, 64, 8)]:
        units.append(Unit("single_conf_" + p.lower().replace("=", ""), "conf.cpp", defs=["PART_" + p], libs=["-lcrypto"], single=True))
    for sec in (128, 256):
        add("shakecmp_%d" % sec, "values.cpp", ["SHAKECMP=%d" % sec], ["-O1"])
        add("shake%d_long" % sec, "shake.cpp", ["SEC=%d" % sec, "LENGTHS=600,672,673,816,1000,1024,4100,8193,20011,65536,65544,131077"], ["-O2"])
        for lo in range(1, 513, 64) if c.thorough else (65, 193, 321):
            add("shake%d_%d" % (sec, lo), "shake.cpp", ["SEC=%d" % sec, "FROM=%d" % lo, "TO=%d" % (lo + 64)], ["-O1"])
    for i in (1, 2):
        add("hextext_%d" % i, "values.cpp", ["HEXTEXT=1", "PART=%d" % i], ["-O1"])
    for p in range(4):
        add("typing_%d" % p, "typing.cpp", ["PART=%d" % p], ["-O0"])
    for p in (3, 0, 2, 1):
        add("guard_%d" % p, "bounds.cpp", ["MODE=0", "PART=%d" % p, "_GLIBCXX_ASSERTIONS"], ["-O2"])
    for p in (3, 0, 2, 1) if c.thorough else (0, 1):
        add("alloc_%d" % p, "alloc.cpp", ["OPT=0", "PART=%d" % p], ["-O0"])
    for i in range(11) if c.thorough else (0, 3):
        add("longenc_%d" % i, "longenc.cpp", ["ENC=%d" % i], ["-O1"])
    for a in ALGS if c.thorough else ("ASha2<512>", "ASha3<256>", "AXxh<64>"):
        add("values2_" + ident(a), "values2.cpp", ["ALG=" + a, "DEPTH=3"], SPLIT_FLAGS)
    units.append(Unit("single_longmsg", "longmsg.cpp", libs=["-lcrypto"], single=True))
    for a in ALGS if c.thorough else ("ASha2<256>", "ASha3<256>", "AXxh<64>"):
        add("carriers_" + ident(a), "carriers.cpp", ["ALG=" + a], ["-O1"])
    for t, o in (("unsigned char", "1,3,5,6,12"), ("int16_t", "3,8,12"), ("uint64_t", "1,8,16")):
        add("chunk_" + ident(t), "chunk.cpp", ["ELEMENT=" + t, "OUTS=" + o], ["-O1"])
    for i, a in enumerate(["ASha2<256>", "ASha3<256>", "AXxh<64>"]):
        units.append(Unit("single_misc_forms%d" % i, "constmisc.cpp", defs=["PART_FORMS=" + a], flags=GCC_CONST, single=True))
    # the longest compilations first
    units.sort(key=lambda u: 0 if "channels" in u.name or "carriers" in u.name or "iter" in u.name else 1)
    texts = [("alone", "#include <cthash-single-header.hpp>\nint main() { }\n"), ("twice", "#include <cthash-single-header.hpp>\n#include <cthash-single-header.hpp>\n#include <cthash/cthash.hpp>\nint main() { }\n")]
    more = [Unit("single_header_%s_%s" % (n, ident(x)), None, text=t, flags=["-O0"], cxx=x, std=s) for n, t in texts for x in ("g++-14", "g++-13", "clang++") for s in ("c++20", "c++23")]
    good = c.compile(units + more, what="what compiles with the modular headers does not compile with the single header")
    c.run_all([u for u in good if u not in more], job_timeout=700 if c.thorough else 400)
    c.assumptions += ["the same harnesses run against the modular headers in the checks of the other properties; both are compared with the same reference", "simple.hpp is not part of cthash.hpp and therefore not of the single header"]
    c.extra["bound"] = "the battery of C23 with 3 compilers, and the explorations of C01-C09, C11-C20, C24, C26, C27 (reduced type lists and depths) with every modular header replaced by the single one"
    return "exhaustive explorations repeated with the single header, same oracle as for the modular headers"


@check("C12")
def C12(c):
    algs = ALGS if c.thorough else [a for a in ALGS]
    units = [Unit("values2_" + ident(a), "values2.cpp", defs=["ALG=" + a, "DEPTH=%d" % (5 if c.thorough else 4)], flags=SPLIT_FLAGS) for a in algs]
    units.append(Unit("values2_mixed", "values2.cpp", flags=SPLIT_FLAGS))
    c.run_all(c.compile(units))
    c.assumptions += ["reference as in C01-C05", "using a SHA-2 or SHA-3 hasher after final() is outside the contract (the library asserts or leaves it unspecified), so a finished hasher is only copied, moved or destroyed; xxHash may be continued"]
    c.extra["bound"] = "every sequence of up to 4 (thorough 5) of 30 operations over three live hashers of one type (update with 3 sizes, copy construction over the old object, move construction, assignment where the type has it, swap, final), all finalised afterwards in both orders; all 20 merges of [update, update, final] of two hashers x 256 size combinations x 17x17 type pairs; every address within 256 bytes x 5 memory fills x 18 lengths; vectors, self-assignment, memcpy relocation, by-value passing"
    return "stateless exploration: each sequence is executed from scratch on the real hashers and compared with the reference digest of what each hasher was given"


ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
MSAN = ["-O1", "-fsanitize=memory", "-fno-sanitize-recover=all", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]


@check("C13")
def C13(c):
    units = []
    for p in (3, 2, 0, 1):
        units.append(Unit("guard_%d" % p, "bounds.cpp", defs=["MODE=0", "PART=%d" % p, "_GLIBCXX_ASSERTIONS"], flags=["-O2"]))
        units.append(Unit("asan_%d" % p, "bounds.cpp", defs=["MODE=1", "PART=%d" % p], flags=ASAN))
        units.append(Unit("msan_%d" % p, "bounds.cpp", defs=["MODE=2", "PART=%d" % p], flags=MSAN, cxx="clang++"))
        if c.thorough:
            units.append(Unit("guard_clang_%d" % p, "bounds.cpp", defs=["MODE=0", "PART=%d" % p], flags=["-O3"], cxx="clang++"))
            units.append(Unit("guard_O0_%d" % p, "bounds.cpp", defs=["MODE=0", "PART=%d" % p], flags=["-O0"]))
        if c.thorough or p < 2:
            units.append(Unit("asan_clang_%d" % p, "bounds.cpp", defs=["MODE=1", "PART=%d" % p], flags=ASAN, cxx="clang++"))
    for p in (0, 1, 2):
        units.append(Unit("battery_asan_%d" % p, "battery.cpp", defs=["PART=%d" % p, "_GLIBCXX_ASSERTIONS"], flags=ASAN))
        units.append(Unit("battery_debug_%d" % p, "battery.cpp", defs=["PART=%d" % p, "_GLIBCXX_DEBUG", "_GLIBCXX_DEBUG_PEDANTIC", "NO_CONSTANTS"], flags=["-O1"]))
    more = [("iter", ["ENCS=0", "CHUNKS=1"])]
    if c.thorough:
        more += [("order", ["ORDER"])] + [("encode", ["ENC=%d" % i]) for i in range(11)] + [("channels", ["PART=%d" % i]) for i in range(8)] + [("carriers", ["ALG=" + a]) for a in ALGS] + [("chunk", ["ELEMENT=" + t, "OUTS=" + o]) for t, o in (("unsigned char", "1,3,5,6,12"), ("int16_t", "3,8,12"), ("uint64_t", "1,8,16"))] + [("names", [])]
        more += [("values2", ["ALG=" + a, "DEPTH=3"]) for a in ALGS]
    else:
        more += [("carriers", ["ALG=" + a]) for a in ("ASha2<512>", "AXxh<64>")]
    for n, d in more:
        units.append(Unit("asan_" + n + "_" + ident("_".join(d)), ("values" if n == "order" else n) + ".cpp", defs=d, flags=ASAN))
    good = c.compile(units)
    tier = c.thorough
    for u in good:
        big = u.name.startswith("asan_") and not u.name[5:6].isdigit() and not u.name.startswith("asan_clang")
        if big:
            c.thorough = False  # the deep tier of these harnesses runs uninstrumented in their own checks
        try:
            c.run(u, env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1", "UBSAN_OPTIONS": "print_stacktrace=1"})
        finally:
            c.thorough = tier
    c.assumptions += ["the monitors: the MMU (guard pages, read-only mapping), canaries, AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, libstdc++ debug assertions, the library's own assertions (on in all these builds)", "reads before a misaligned beginning of the input are seen by MemorySanitizer only (if the result depends on them)"]
    c.extra["bound"] = "18 hashers x every buffer state (0..block-1 bytes, and 4 beyond a block) x every input length 0..2 blocks + 9 x beginning/end at a guard page x carriers in turn; all 7 carriers from the empty state; final() into buffers at 10 places between canaries; 11 encodings x every length to 130 (300) x 8 forms; 48 chunk views; values of 8 sizes rendered, compared, parsed (5 character types), cut, at the edges; the same again on exact heap blocks under ASan+UBSan (two compilers) and in poisoned memory under MSan; other harnesses under ASan+UBSan"
    return "exhaustive enumeration of length x state x placement with memory watched"


@check("C24")
def C24(c):
    units = [Unit("alloc_%s_%d_%d" % (ident(x), o, p), "alloc.cpp", defs=["OPT=%d" % o, "PART=%d" % p], flags=["-O%d" % o], cxx=x) for x, o in (("g++-14", 2), ("g++-14", 0)) + ((("clang++", 0), ("clang++", 2), ("g++-14", 3)) if c.thorough else ()) for p in (3, 0, 2, 1)]
    c.run_all(c.compile(units))
    c.assumptions += ["every way to the heap passes through operator new or the malloc family, all of which are intercepted (a self-test job checks that they are)", "unoptimised builds are included because compilers may remove allocations"]
    c.extra["bound"] = "17 hashers x every buffer state x every length 0..2 blocks + 9; all sequences of 4 (thorough 6) of 8 operations (6 update sizes, copy, copy + final); 30000 updates of one hasher; single updates of every power of two to 2^24 (2^28) bytes; every helper and carrier to 3 blocks; 300 digests per hasher compared, cut, rendered to fixed strings in 11 encodings, parsed back"
    return "exhaustive enumeration of operation sequences with the allocator intercepted"


@check("C25")
def C25(c):
    units = []
    for p in (0, 1, 2, 3):
        units.append(Unit("threads_%d" % p, "threads.cpp", defs=["PART=%d" % p, "DENSE=1", "SINGLE=1"], flags=["-O2", "-Wl,-z,now,-z,relro"]))
        units.append(Unit("threads_O0_%d" % p, "threads.cpp", defs=["PART=%d" % p, "DENSE=%d" % (2 if c.thorough else 0), "SINGLE=0"], flags=["-O0", "-Wl,-z,now,-z,relro"]))
        units.append(Unit("tsan_%d" % p, "threads.cpp", defs=["PART=%d" % p, "FREE"], flags=["-O1", "-fsanitize=thread"]))
    c.run_all(c.compile(units), job_timeout=900 if c.thorough else 300, env={"TSAN_OPTIONS": "halt_on_error=1"})
    c.assumptions += ["sequential consistency (one thread runs at a time under the scheduler); data races proper are left to ThreadSanitizer in the free-running part", "memory not written by the program's own data, the shared constants or the operation's own objects is private to the operation; the allocator, locales and exceptions of the C and C++ libraries are thread-safe", "operations that touch no common location with a write commute, so that their sequential executions stand for every interleaving of any number of threads"]
    c.extra["bound"] = "84 operations (hashing with 14 algorithms, two lengths; reading a shared hasher; encoding, comparing, parsing, cutting, formatting of own and shared digests); all ordered pairs: every access to shared writable memory recorded, every conflicting pair of accesses turned into schedules (up to 3000 per pair of operations), second operation run before every single instruction of the first; one execution per instruction for each operation with itself; all pairs running freely under ThreadSanitizer"
    return "schedule exploration of the compiled code: conflict detection, single and double preemption at instruction granularity"


def foreign_includes(narrow):
    """the native headers, with the few that name the processor replaced"""
    import re
    import subprocess
    out = subprocess.run(["clang++", "-v", "-E", "-x", "c++", "-", "-o", "/dev/null"], stdin=subprocess.DEVNULL, stderr=subprocess.PIPE, errors="replace").stderr
    m = re.search(r"search starts here:\n(?:.*\n)*?#include <\.\.\.> search starts here:\n((?: .*\n)+)", out)
    if not m:
        raise CheckError("cannot find out the include directories of clang++:\n" + out[-2000:])
    dirs = [os.path.realpath(d.strip()) for d in m.group(1).splitlines()]
    return ["-nostdinc", "-nostdinc++"] + (["-isystem", os.path.join(VERIF, "bigend", "shim32")] if narrow else []) + ["-isystem", os.path.join(VERIF, "bigend", "shim")] + [x for d in dirs for x in ("-isystem", d)]


# the 32-bit code calls these with a size_t of its own; see harness/bigend.cpp
NARROW_SYMBOLS = ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen")
NARROW_OPERATORS = {"_Znwj": "narrow_new", "_Znaj": "narrow_new", "_ZdlPvj": "narrow_delete", "_ZdaPvj": "narrow_delete"}


def foreign(c, hosts, groups, what):
    """the library as compiled for other hosts: (tag, target, narrow, big-endian, flags) each"""
    import re
    import subprocess
    tool = Unit("translator", os.path.join(VERIF, "bigend", "bigend.cpp"), std="c++17", cxx="clang++", flags=["-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-D__STDC_FORMAT_MACROS"], libs=["-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    c.compile_one(tool)
    if not tool.ok:
        raise CheckError("the translator does not build:\n" + tool.log[-3000:])
    api = os.path.join(VERIF, "bigend", "api.cpp")
    jobs = []
    for g in groups:
        for tag, target, narrow, big, fl in hosts:
            name = "%s_%d_%s" % ("narrow" if narrow else "be", g, tag)
            std = "c++20" if "-std=c++20" in fl else "c++23"
            build = Unit(name, api, std=std, cxx="clang++", link=False, defs=["GROUP=%d" % g, "_GLIBCXX_EXTERN_TEMPLATE=0"], flags=["--target=" + target] + foreign_includes(narrow) + ["-emit-llvm", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize"] + [f for f in fl if not f.startswith("-std")])
            build.group, build.tag, build.narrow, build.big, build.base, build.optimised = g, tag, narrow, big, os.path.join(c.build, name), "-O0" not in fl
            build.native = Unit(name + "_native", api, std=std, cxx="clang++", link=False, defs=["GROUP=%d" % g], flags=["-fsyntax-only"])
            jobs.append(build)

    def produce(b):
        def step(*cmd):
            p = subprocess.run(list(cmd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            b.tlog += p.stdout
            b.translated = b.translated and p.returncode == 0
            return p
        c.compile_one(b)
        if not b.ok:
            c.compile_one(b.native)
            return
        b.tlog, b.translated, b.links = "", True, []
        step(tool.exe, b.base + ".o", b.base + ".bc")
        if not b.translated:
            return
        if not b.narrow:
            step("clang++", "-O1", "-fPIE", "-w", "-c", b.base + ".bc", "-o", b.base + ".x.o")
            return
        step("clang++", "--target=x86_64-pc-linux-gnux32", "-O1", "-fno-pic", "-w", "-S", b.base + ".bc", "-o", b.base + ".s")
        if b.translated:
            step("clang++", "-w", "-c", b.base + ".s", "-o", b.base + ".x.o")
        if b.translated:
            step("objcopy", *[x for n in NARROW_SYMBOLS for x in ("--redefine-sym", n + "=narrow_" + n)], b.base + ".x.o")
        if b.translated:
            with open(b.base + ".main.cpp", "w") as f:
                f.write("int main() { }\n")
            p = subprocess.run(["g++-14", "-w", "-no-pie", b.base + ".main.cpp", b.base + ".x.o", "-o", b.base + ".trial", "-Wl,--warn-unresolved-symbols,--no-demangle"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors="replace")
            for n in sorted(set(re.findall(r"undefined reference to [`']([^`']+)'", p.stdout))):
                if not n.startswith("narrow_"):
                    b.links.append("-Wl,--defsym=%s=%s" % (n, NARROW_OPERATORS.get(n, "narrow_unsupported")))

    list(c.pool.map(produce, jobs))
    units = []
    facts = []
    for b in jobs:
        if not b.ok:
            if c.environment_failure(b):
                raise CheckError("compiling %s failed for a reason of the environment:\n%s" % (b.name, b.log[-2000:]))
            e = first_error(b.log)
            if b.native.ok and e.startswith(REPO):
                c.violation("compile-" + b.name, "does not compile for %s: %s" % (what, e), "command: %s\n\n%s" % (" ".join(b.cmd), b.log[:20000]), src=api)
            else:
                c.note("%s is left out, it does not compile: %s" % (b.name, e))
            continue
        if not b.translated:
            c.note("%s is left out, the translator does not know everything in it: %s" % (b.name, b.tlog[-400:]))
            continue
        facts.append(b.name + ": " + b.tlog.split("; outside")[0].replace("bigend: ", ""))
        defs = ["GROUP=%d" % b.group] + (["NARROW"] if b.narrow else []) + (["BIG"] if b.narrow and b.big else []) + (["FAR"] if b.optimised and (c.thorough or not b.big) else [])
        units.append(Unit("host_" + b.name, "bigend.cpp", defs=defs, flags=["-O1"] + (["-no-pie"] if b.narrow else []), libs=[b.base + ".x.o"] + (b.links + ["-lcrypto"] if b.narrow else [])))
    for tag in sorted({h[0] for h in hosts}):
        if not any("_3_" + tag in u.name for u in units):
            raise CheckError("the self-test of the translation could not be built (%s)" % tag)
    units.sort(key=lambda u: 0 if "_3_" in u.name else 1)
    c.run_all(c.compile(units))
    c.extra["translated"] = facts


@check("C28")
def C28(c):
    t = "aarch64_be-linux-gnu"
    hosts = [("O0", t, False, True, ["-O0", "-fsigned-char"]), ("O2", t, False, True, ["-O2"])]
    if c.thorough:
        hosts += [("O1", t, False, True, ["-O1"]), ("O3", t, False, True, ["-O3", "-fsigned-char"]), ("20", t, False, True, ["-O2", "-std=c++20"]), ("ndebug", t, False, True, ["-O2", "-DNDEBUG"])]
    foreign(c, hosts, (5, 1, 0, 6, 2, 4, 3), "a big-endian host")
    c.assumptions += ["the big-endian host is a 64-bit one with the data layout of big-endian AArch64; its memory is modelled by reversing the bytes of every value wider than a byte at each load and store of the code Clang 18 generates for it (bigend/bigend.cpp refuses what it cannot translate; the self-test job checks loads, stores, tables, structures and bit_cast)", "stream output is left out: the stream library of this machine is little-endian"]
    c.extra["bound"] = "code compiled for a big-endian host at -O0 with signed char and -O2 with unsigned char (thorough: 4 more settings): 16 hashers x every length to 4 (9) blocks + 9 x 5 patterns x 7 carriers, all two-piece cuts to two blocks + 9 followed by third pieces fed to a copy, every byte value at every position of 5 lengths; 11 encodings x all inputs to 2 bytes, every length to 130 (600); comparison, rendering, parsing, std::format of values of 8 sizes with every byte value at every position; chunk views of 8 element types; constants computed by the compiler for that host"
    return "exhaustive enumeration over the code compiled for a big-endian host, executed with big-endian memory, against the reference"


@check("C29")
def C29(c):
    le, be = "riscv32-linux-gnu", "powerpc-linux-gnu"
    ppc = ["-mlong-double-64"]
    hosts = [("O0", le, True, False, ["-O0", "-fsigned-char"]), ("O2", le, True, False, ["-O2"]), ("be", be, True, True, ["-O2"] + ppc)]
    if c.thorough:
        hosts += [("O1", le, True, False, ["-O1"]), ("O3", le, True, False, ["-O3", "-fsigned-char"]), ("20", le, True, False, ["-O2", "-std=c++20"]), ("ndebug", le, True, False, ["-O2", "-DNDEBUG"]), ("be0", be, True, True, ["-O0"] + ppc), ("mips", "mipsel-linux-gnu", True, False, ["-O2"])]
    foreign(c, hosts, (7, 0, 1, 5, 2, 6, 4, 3), "a 32-bit host")
    c.assumptions += ["the 32-bit host has 32-bit pointers, size_t and long, 64-bit integers aligned to 8 bytes, and no 128-bit integer (RISC-V; big-endian: PowerPC). The code Clang 18 generates for it is given the x32 machine (pointers of 32 bits in memory, everything below 4 GiB) as its processor; the self-test job checks widths, arithmetic, structures, tables", "streams, locales and exceptions are those of this machine and are left out"]
    c.extra["bound"] = "code compiled for a 32-bit host at -O0 with signed char and -O2 with unsigned char, and a big-endian one at -O2 (thorough: 6 more settings): 16 hashers x every length to 4 (9) blocks + 9 x 5 patterns x 7 carriers, all two-piece cuts to two blocks + 9 followed by third pieces fed to a copy, every byte value at every position of 5 lengths; totals around 2^29, 2^31, 2^32 bytes in pieces of up to 2^31 bytes really hashed (SHA-256, SHA-512, SHA3-256, XXH32, XXH64; thorough: all with a counterpart in OpenSSL); 11 encodings x all inputs to 2 bytes, every length to 130 (600), size() around every eighth of every power of two as long as the text has fewer than 2^31 characters, texts of more than 2^29 bytes read to the end; comparison, rendering, parsing, std::format of values of 8 sizes with every byte value at every position; chunk views of 8 element types; constants computed by the compiler for that host"
    return "exhaustive enumeration over the code compiled for a 32-bit host, executed with 32-bit pointers, against the reference"
