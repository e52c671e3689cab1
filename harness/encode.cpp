// C14: every byte sequence of a bounded space through every encoding, element type and container.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <ranges>
#include <sstream>

static constexpr int E = ENC; // one encoding per build
static const ref::encoding & enc = ref::encodings[E];
using T = enc_type<E>;

// generic: text and announced size of encoding a range
template <class C, class V> static void check_view(V && view, const char * want, size_t wn, const char * how, const uint8_t * p, size_t n) {
	size_t i = 0;
	bool bad = false;
	auto last = view.end();
	for (auto it = view.begin(); !(it == last); ++it, ++i) {
		if (i >= wn || *it != static_cast<C>(static_cast<unsigned char>(want[i]))) {
			bad = true;
			break;
		}
	}
	if (bad || i != wn) {
		std::string got;
		size_t k = 0;
		for (auto it = view.begin(); !(it == view.end()) && k < wn + 40; ++it, ++k) got += static_cast<char>(*it);
		mc::fail("%s of %zu bytes %s (%s): '%s' instead of '%s'", enc.name, n, mc::hex(p, std::min<size_t>(n, 64)).c_str(), how, got.c_str(), std::string(want, wn).c_str());
	}
	if constexpr (requires { view.size(); })
		if (size_t s = view.size(); s != wn) mc::fail("%s of %zu bytes (%s): size() is %zu, %zu characters are produced", enc.name, n, how, s, wn);
	mc::transition(wn + 1), mc::validated();
}
// independent decoder: text back to bytes
static bool decode(const char * t, size_t tn, std::vector<uint8_t> & out) {
	out.clear();
	uint32_t acc = 0;
	unsigned have = 0;
	while (tn && enc.padded && t[tn - 1] == '=') --tn;
	for (size_t i = 0; i < tn; ++i) {
		const char * f = strchr(enc.alphabet, t[i]);
		if (!f || !t[i]) return false;
		acc = (acc << enc.bits) | uint32_t(f - enc.alphabet), have += enc.bits;
		if (have >= 8) out.push_back(uint8_t(acc >> (have - 8))), have -= 8;
		acc &= (1u << have) - 1;
	}
	return acc == 0;
}
static void one(const uint8_t * p, size_t n, bool reference) {
	char want[8192];
	const size_t wn = quick_encode(enc, p, n, want);
	if (reference && std::string(want, wn) != ref::encode(enc, p, n)) throw std::logic_error("the two references disagree");
	mc::state();
	check_view<char>(std::span<const unsigned char>(p, n) | enc_at<E>::action, want, wn, "span<const unsigned char>", p, n);
}
template <class El> static auto els(const uint8_t * p, size_t n) { return std::span<const El>(reinterpret_cast<const El *>(p), n); }

static void all_carriers(const uint8_t * p, size_t n) {
	char want[40000];
	const size_t wn = quick_encode(enc, p, n, want);
	if (std::string(want, wn) != ref::encode(enc, p, n)) throw std::logic_error("the two references disagree");
	constexpr auto a = enc_at<E>::action;
	mc::state();
	check_view<char>(els<std::byte>(p, n) | a, want, wn, "span<const std::byte>", p, n);
	check_view<char>(els<unsigned char>(p, n) | a, want, wn, "span<const unsigned char>", p, n);
	check_view<char>(els<signed char>(p, n) | a, want, wn, "span<const signed char>", p, n);
	check_view<char>(els<char>(p, n) | a, want, wn, "span<const char>", p, n);
	check_view<char>(els<char8_t>(p, n) | a, want, wn, "span<const char8_t>", p, n);
	const std::string s(reinterpret_cast<const char *>(p), n);
	check_view<char>(s | a, want, wn, "const std::string &", p, n);
	check_view<char>(std::string(s) | a, want, wn, "std::string &&", p, n);
	check_view<char>(std::string_view(s) | a, want, wn, "string_view", p, n);
	std::vector<std::byte> vb(n);
	if (n) memcpy(vb.data(), p, n);
	check_view<char>(vb | a, want, wn, "vector<std::byte> &", p, n);
	const auto held = std::vector<signed char>(reinterpret_cast<const signed char *>(p), reinterpret_cast<const signed char *>(p) + n) | a;
	check_view<char>(held, want, wn, "const view of vector<signed char>", p, n);
	const std::deque<unsigned char> dq(p, p + n);
	check_view<char>(dq | a, want, wn, "deque", p, n);
	const std::list<signed char> li(p, p + n);
	check_view<char>(li | a, want, wn, "list<signed char>", p, n);
	const std::forward_list<unsigned char> fl(p, p + n);
	check_view<char>(fl | a, want, wn, "forward_list (unsized)", p, n);
	check_view<char>((dq | std::views::reverse | std::views::reverse) | a, want, wn, "reversed twice", p, n);
	check_view<char>((std::span<const unsigned char>(p, n) | std::views::transform([](unsigned char c) { return static_cast<signed char>(c); })) | a, want, wn, "transform view to signed char", p, n);
	{
		const auto filtered = std::vector<unsigned char>(p, p + n);
		auto f = filtered | std::views::take_while([](unsigned char) { return true; });
		check_view<char>(f | a, want, wn, "take_while view (sentinel of another type)", p, n);
	}
	check_view<wchar_t>(els<unsigned char>(p, n) | cthash::encode_to<T, wchar_t>, want, wn, "to wchar_t", p, n);
	check_view<char8_t>(els<signed char>(p, n) | cthash::encode_to<T, char8_t>, want, wn, "to char8_t", p, n);
	check_view<char16_t>(els<std::byte>(p, n) | cthash::encode_to<T, char16_t>, want, wn, "to char16_t", p, n);
	check_view<char32_t>(els<char>(p, n) | cthash::encode_to<T, char32_t>, want, wn, "to char32_t", p, n);
	const auto str = (els<signed char>(p, n) | a).to_string();
	if (str != std::string_view(want, wn)) mc::fail("%s of %zu bytes: to_string() of the view gives '%s' instead of '%s'", enc.name, n, str.c_str(), std::string(want, wn).c_str());
	std::vector<uint8_t> back;
	if (!decode(str.data(), str.size(), back) || back.size() != n || (n && memcmp(back.data(), p, n))) mc::fail("%s of %zu bytes does not decode back: '%s'", enc.name, n, str.c_str());
	mc::validated(2);
	mc::outcome(mc::fnv(str.data(), str.size()));
}
template <size_t N> static void arrays() {
	for (int kind = 0; kind < 7; ++kind)
		for (int x = 0; x < 256; x += kind == 0 ? 1 : 51) {
			std::array<unsigned char, N> au;
			unsigned char raw[N];
			std::array<signed char, N> as;
			cthash::hash_value<N> hv{};
			for (size_t i = 0; i < N; ++i) au[i] = uint8_t(pattern(kind, i) + x), raw[i] = au[i], as[i] = static_cast<signed char>(au[i]), hv[i] = static_cast<std::byte>(au[i]);
			char want[1024];
			const size_t wn = quick_encode(enc, raw, N, want);
			constexpr auto a = enc_at<E>::action;
			mc::state();
			check_view<char>(au | a, want, wn, "std::array<unsigned char>", raw, N);
			check_view<char>(as | a, want, wn, "std::array<signed char>", raw, N);
			check_view<char>(raw | a, want, wn, "raw array", raw, N);
			check_view<char>(hv | a, want, wn, "hash_value", raw, N);
			check_view<char>(decltype(hv)(hv) | a, want, wn, "hash_value &&", raw, N);
		}
}

int main(int argc, char ** argv) {
	mc::add("empty-1-2", [] {
		uint8_t b[2];
		one(b, 0, true);
		one(nullptr, 0, true);
		for (int i = 0; i < 256; ++i) {
			b[0] = uint8_t(i);
			one(b, 1, true);
			all_carriers(b, 1);
			for (int k = 0; k < 256; ++k) b[1] = uint8_t(k), one(b, 2, true);
		}
		mc::sample("%s: all byte sequences of 0, 1 and 2 bytes", enc.name);
	});
	for (int part = 0; part < 8; ++part)
		mc::add("three-" + std::to_string(part), [part] {
			uint8_t b[3];
			for (int i = part * 32; i < part * 32 + 32; ++i)
				for (int k = 0; k < 256; ++k) {
					mc::at("three bytes %llu %llu *", uint64_t(i), uint64_t(k));
					for (int l = 0; l < 256; ++l) b[0] = uint8_t(i), b[1] = uint8_t(k), b[2] = uint8_t(l), one(b, 3, false);
				}
		});
	if (mc::thorough)
		for (int part = 0; part < 64; ++part)
			mc::add("four-" + std::to_string(part), [part] {
				uint8_t b[4];
				for (uint32_t v = uint32_t(part) << 26, i = 0; i < (1u << 26); ++i, ++v) {
					b[0] = uint8_t(v >> 24), b[1] = uint8_t(v >> 16), b[2] = uint8_t(v >> 8), b[3] = uint8_t(v);
					if (!b[3]) mc::at("four bytes %08llx", uint64_t(v));
					one(b, 4, false);
				}
			});
	// a character depends on at most two adjacent bytes and the phase: all pairs at every position of short inputs
	const int top = 11;
	for (int n = 4; n <= top; ++n)
		mc::add("pairs-" + std::to_string(n), [n] {
			static const int kinds_q[] = {0, 1, 2, 4}, kinds_t[] = {0, 1, 2, 3, 4, 5};
			uint8_t b[16];
			for (int kind: mc::thorough ? std::span<const int>(kinds_t) : std::span<const int>(kinds_q))
				for (int pos = 0; pos + 1 < n; ++pos) {
					for (int i = 0; i < n; ++i) b[i] = pattern(kind, size_t(i));
					for (int i = 0; i < 256; ++i) {
						mc::at("length %llu, position %llu, byte %llu", uint64_t(n), uint64_t(pos), uint64_t(i));
						b[pos] = uint8_t(i);
						for (int k = 0; k < 256; ++k) b[pos + 1] = uint8_t(k), one(b, size_t(n), false);
					}
				}
		});
	for (int part = 0; part < 4; ++part)
		mc::add("lengths-" + std::to_string(part), [part] {
			const size_t max = mc::thorough ? 3000 : 330;
			for (size_t n = size_t(part); n <= max; n += 4)
				for (int kind = 0; kind < 7; ++kind) {
					mc::at("length %llu pattern %llu", n, uint64_t(kind));
					auto m = message(kind, n);
					all_carriers(m.data(), n);
					if (n == 33 && kind == 0) mc::sample("%s of 33 pattern bytes through 20 containers/character types: %s", enc.name, ref::encode(enc, m.data(), n).c_str());
				}
		});
	mc::add("arrays", [] {
		[]<size_t... I>(std::index_sequence<I...>) { (arrays<I + 1>(), ...); }(std::make_index_sequence<20>());
		arrays<28>(), arrays<32>(), arrays<48>(), arrays<64>();
	});
	mc::add("single-deviations", [] {
		for (size_t n: {5u, 8u, 15u, 20u, 28u, 32u, 33u, 48u, 64u, 65u})
			for (int kind: {0, 1, 2})
				for (size_t pos = 0; pos < n; ++pos) {
					auto m = message(kind, n);
					for (int v = 0; v < 256; ++v) m[pos] = uint8_t(v), one(m.data(), n, false);
				}
	});
	return mc::run(argc, argv);
}
