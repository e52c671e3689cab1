// C15: every way to render a digest, for every algorithm's value type, encoding and character type.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <format>
#include <iomanip>
#include <sstream>
using namespace std::string_literals;

template <class C> static std::basic_string<C> widen(const std::string & s) { return std::basic_string<C>(s.begin(), s.end()); }
template <class C> static std::string narrow(const std::basic_string<C> & s) {
	std::string r;
	for (C c: s) r += (c == static_cast<C>(static_cast<char>(c)) ? static_cast<char>(c) : '?');
	return r;
}
static const char * tname = "";
static int tdefault = 6; // encoding used when none is named
template <class C> static void expect(const std::basic_string<C> & got, const std::string & want, const char * how, const char * e, const void * raw, size_t n) {
	mc::transition(), mc::validated();
	if (got != widen<C>(want)) mc::fail("%s %s, %s with %s: '%s' instead of '%s'", tname, mc::hex(raw, n).c_str(), how, e, narrow(got).c_str(), want.c_str());
}
template <class C, class T> static std::basic_string<C> streamed(const T & v) {
	std::basic_ostringstream<C> o;
	o << v;
	return o.str();
}
template <class T> static std::string fmt(const std::string & f, const T & v) { return std::vformat(f, std::make_format_args(v)); }
template <class T> static std::wstring wfmt(const std::wstring & f, const T & v) { return std::vformat(f, std::make_wformat_args(v)); }

template <int E, class V> static void with_encoding(const V & v, const uint8_t * raw, size_t n, bool full) {
	using T = enc_type<E>;
	const auto & e = ref::encodings[E];
	const std::string want = ref::encode(e, raw, n);
	mc::outcome(mc::fnv(want.data(), want.size()));
	expect(to_string<T>(v), want, "to_string", e.name, raw, n);
	const auto fs = to_fixed_string<T>(v);
	expect(std::string(fs.data(), fs.size()), want, "to_fixed_string", e.name, raw, n);
	if (!(fs == std::string_view(want)) || std::string_view(fs) != want) mc::fail("fixed_string compares wrongly with its text");
	{
		std::ostringstream o;
		auto & r = v.template print_into<T>(o);
		if (&r != &o) mc::fail("print_into does not return the stream");
		expect(o.str(), want, "print_into", e.name, raw, n);
	}
	expect(fmt("{:"s + e.name + "}", v), want, "format by name", e.name, raw, n);
	if (e.alias) expect(fmt("{:"s + e.alias + "}", v), want, "format by alias", e.name, raw, n);
	const auto view = v | enc_at<E>::action;
	expect(view.to_string(), want, "view to_string", e.name, raw, n);
	if (!full) return;
	{
		std::ostringstream o;
		o << std::hex << std::showbase << std::uppercase << std::left << std::setfill('*');
		o << "[" << view << "|";
		v.template print_into<T>(o);
		o << "]";
		expect(o.str(), "[" + want + "|" + want + "]", "stream with manipulators", e.name, raw, n);
	}
	expect(streamed<char>(view), want, "view to stream", e.name, raw, n);
	expect(std::format("{}", view), want, "view by format", e.name, raw, n);
	expect(std::format("<{:}>", view), "<" + want + ">", "view by format in text", e.name, raw, n);
	std::string got;
	for (char c: view) got += c;
	expect(got, want, "range for over the view", e.name, raw, n);
	expect(fmt("<{:"s + e.name + "}>", v), "<" + want + ">", "format in text", e.name, raw, n);
	expect(fmt("{0:"s + e.name + "}{0}{0:BASE16}", v), want + ref::encode(ref::encodings[tdefault], raw, n) + ref::encode(ref::encodings[7], raw, n), "three fields", e.name, raw, n);
	// other character types
	expect(to_string<T, wchar_t>(v), want, "to_string wchar_t", e.name, raw, n);
	expect(to_string<T, char8_t>(v), want, "to_string char8_t", e.name, raw, n);
	expect(to_string<T, char16_t>(v), want, "to_string char16_t", e.name, raw, n);
	expect(to_string<T, char32_t>(v), want, "to_string char32_t", e.name, raw, n);
	const auto fw = to_fixed_string<T, wchar_t>(v);
	expect(std::wstring(fw.data(), fw.size()), want, "to_fixed_string wchar_t", e.name, raw, n);
	const auto fu = to_fixed_string<T, char32_t>(v);
	expect(std::u32string(fu.data(), fu.size()), want, "to_fixed_string char32_t", e.name, raw, n);
	const auto wview = v | cthash::encode_to<T, wchar_t>;
	expect(wview.to_string(), want, "wide view to_string", e.name, raw, n);
	expect(streamed<wchar_t>(wview), want, "wide view to stream", e.name, raw, n);
	expect(std::format(L"{}", wview), want, "wide view by format", e.name, raw, n);
	expect(wfmt(L"{:" + widen<wchar_t>(e.name) + L"}", v), want, "wide format by name", e.name, raw, n);
	if (e.alias) expect(wfmt(L"{:" + widen<wchar_t>(e.alias) + L"}", v), want, "wide format by alias", e.name, raw, n);
	std::wostringstream o;
	v.template print_into<T>(o);
	expect(o.str(), want, "wide print_into", e.name, raw, n);
}
template <class V> static void defaults(const V & v, const uint8_t * raw, size_t n) {
	const std::string want = ref::encode(ref::encodings[6], raw, n);
	expect(to_string(v), want, "to_string", "default", raw, n);
	const auto fs = to_fixed_string(v);
	expect(std::string(fs.data(), fs.size()), want, "to_fixed_string", "default", raw, n);
	expect(streamed<char>(v), want, "<<", "default", raw, n);
	expect(streamed<wchar_t>(v), want, "wide <<", "default", raw, n);
	expect(std::format("{}", v), want, "format", "default", raw, n);
	expect(std::format("{:}", v), want, "format {:}", "default", raw, n);
	expect(std::format(L"{}", v), want, "wide format", "default", raw, n);
	std::ostringstream o;
	o << std::hex << std::showbase << std::uppercase << v << ' ' << v;
	expect(o.str(), want + " " + want, "<< with manipulators", "default", raw, n);
	std::ostringstream p;
	v.print_into(p);
	expect(p.str(), want, "print_into", "default", raw, n);
	char buf[2048];
	auto r = std::format_to_n(buf, sizeof buf, "{}", v);
	expect(std::string(buf, size_t(r.size)), want, "format_to_n", "default", raw, n);
	expect(to_string<cthash::encoding::hexdec, wchar_t>(v), want, "to_string wchar_t", "default", raw, n);
}
template <class V> static void all(const V & v, size_t n, bool full) {
	uint8_t raw[512];
	digest_bytes(v, raw);
	const V before = v;
	mc::state();
	defaults(v, raw, n);
	for_encodings([&](auto i) { with_encoding<decltype(i)::value>(v, raw, n, full); });
	for (size_t i = 0; i < n; ++i)
		if (v[i] != before[i]) mc::fail("rendering changed the value");
}
template <class V> static void type(const char * name, size_t n) {
	mc::add(std::string("channels-") + name + "-" + std::to_string(n), [name, n] {
		tname = name;
		for (int kind = 0; kind < 7; ++kind) {
			V v{};
			for (size_t i = 0; i < n; ++i) v[i] = static_cast<std::byte>(pattern(kind, i));
			mc::at("pattern %llu", uint64_t(kind));
			all(v, n, true);
		}
		// every byte value at every position (quick: 3 backgrounds at the first, last and group boundary positions)
		for (int kind: {0, 1, 2})
			for (size_t pos = 0; pos < n; ++pos) {
				V v{};
				for (size_t i = 0; i < n; ++i) v[i] = static_cast<std::byte>(pattern(kind, i));
				const bool key = pos < 6 || pos + 6 >= n;
				for (int b = 0; b < 256; b += (mc::thorough || (key && kind == 0)) ? 1 : 17) {
					mc::at("pattern %llu position %llu value %llu", uint64_t(kind), pos, uint64_t(b));
					v[pos] = static_cast<std::byte>(b);
					all(v, n, b % 85 == 0 && key);
				}
			}
		mc::sample("%s of %zu bytes: 11 encodings x 10..30 channels x (patterns, single byte deviations)", name, n);
	});
}
// a tag may choose its own default encoding; all channels have to follow it
struct own_tag {
	static constexpr size_t digest_length = 10;
	using encoding = cthash::encoding::base32;
};
static void own_default() {
	mc::add("tag-with-encoding", [] {
		tname = "tag with base32", tdefault = 3;
		for (int kind = 0; kind < 7; ++kind) {
			cthash::tagged_hash_value<own_tag> v{};
			uint8_t raw[10];
			for (size_t i = 0; i < 10; ++i) v[i] = static_cast<std::byte>(raw[i] = pattern(kind, i));
			const std::string want = ref::encode(ref::encodings[3], raw, 10);
			mc::state();
			expect(to_string(v), want, "to_string", "tag default", raw, 10);
			const auto fs = to_fixed_string(v);
			expect(std::string(fs.data(), fs.size()), want, "to_fixed_string", "tag default", raw, 10);
			expect(streamed<char>(v), want, "<<", "tag default", raw, 10);
			expect(streamed<wchar_t>(v), want, "wide <<", "tag default", raw, 10);
			expect(std::format("{}", v), want, "format", "tag default", raw, 10);
			for_encodings([&](auto i) { with_encoding<decltype(i)::value>(v, raw, 10, true); });
		}
	});
}
template <class H> static void from_hasher(const char * name) {
	mc::add(std::string("digests-") + name, [name] {
		tname = name;
		for (int n = 0; n < (mc::thorough ? 2000 : 200); ++n) {
			auto m = message(0, size_t(n));
			const auto d = H{}.update(std::span<const unsigned char>(m)).final();
			all(d, d.size(), n % 10 == 0);
		}
	});
}
int main(int argc, char ** argv) {
#if PART == 0
	type<cthash::hash_value<1>>("hash_value", 1), type<cthash::hash_value<2>>("hash_value", 2), type<cthash::hash_value<3>>("hash_value", 3), type<cthash::hash_value<5>>("hash_value", 5);
	own_default();
#elif PART == 1
	type<cthash::hash_value<20>>("hash_value", 20), type<cthash::hash_value<33>>("hash_value", 33), type<cthash::sha224_value>("sha224_value", 28);
#elif PART == 2
	type<cthash::sha256_value>("sha256_value", 32), type<cthash::sha384_value>("sha384_value", 48), type<cthash::sha512_value>("sha512_value", 64);
#elif PART == 3
	type<cthash::sha3_224_value>("sha3_224_value", 28), type<cthash::sha3_256_value>("sha3_256_value", 32), type<cthash::sha3_384_value>("sha3_384_value", 48);
#elif PART == 4
	type<cthash::sha3_512_value>("sha3_512_value", 64), type<cthash::shake128_value<8>>("shake128_value", 1), type<cthash::shake128_value<256>>("shake128_value", 32);
#elif PART == 5
	type<cthash::shake256_value<512>>("shake256_value", 64), type<cthash::shake256_value<56>>("shake256_value", 7), type<cthash::shake128_value<1352>>("shake128_value", 169);
#elif PART == 6
	type<decltype(cthash::sha512t<224>{}.final())>("sha512t_224", 28), type<decltype(cthash::sha512t<256>{}.final())>("sha512t_256", 32), type<decltype(cthash::sha512t<8>{}.final())>("sha512t_8", 1);
#elif PART == 7
	type<decltype(cthash::xxhash32{}.final())>("xxh32", 4), type<decltype(cthash::xxhash64{}.final())>("xxh64", 8);
	from_hasher<cthash::sha256>("sha256"), from_hasher<cthash::sha3_512>("sha3_512"), from_hasher<cthash::xxhash64>("xxh64");
#endif
	return mc::run(argc, argv);
}
