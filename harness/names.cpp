// C16: encoding names: every name selects its encoding, every string near a name (and every short string) is rejected.
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <format>
#include <iostream>
using namespace std::string_literals;

static const std::map<std::string, int> & table() {
	static const std::map<std::string, int> t = [] {
		std::map<std::string, int> r;
		for (int i = 0; i < enc_n; ++i) {
			r[ref::encodings[i].name] = i;
			if (ref::encodings[i].alias) r[ref::encodings[i].alias] = i;
		}
		return r;
	}();
	return t;
}
static std::string show(const std::string & s) {
	std::string r;
	for (unsigned char c: s) {
		char t[8];
		if (c < 0x20 || c >= 0x7f) snprintf(t, 8, "\\x%02x", c), r += t;
		else r += char(c);
	}
	return r;
}
// which encoding did the library select?  identified by type, not by its name
static int which(const cthash::runtime_encoding & e) {
	return e.visit([]<class T>(T) {
		int r = -1;
		for_encodings([&](auto i) { if constexpr (std::is_same_v<enc_type<decltype(i)::value>, T>) r = decltype(i)::value; });
		return r;
	});
}
static const cthash::hash_value<5> value5 = [] { cthash::hash_value<5> v; for (size_t i = 0; i < 5; ++i) v[i] = static_cast<std::byte>("\xfb\xf0\x3f\x10\x80"[i]); return v; }();
template <class V> static V copy5() { V v{}; for (size_t i = 0; i < 5; ++i) v[i] = value5[i]; return v; }
static const auto tagged5 = copy5<decltype(cthash::sha512t<40>{}.final())>();
static const auto shake5 = copy5<cthash::shake128_value<40>>();
static std::string expected5(int i) {
	uint8_t raw[5];
	digest_bytes(value5, raw);
	return ref::encode(ref::encodings[i], raw, 5);
}
// way: 0 constructor, 1 select_runtime_encoding, 2 select with '}' behind, 3 vformat, 4 vformat of a tagged value, 5 of a SHAKE value
static int select(const std::string & s, int way) { // encoding index, -1: rejected
	try {
		switch (way) {
		case 0: return which(cthash::runtime_encoding(std::string_view(s)));
		case 1: return which(cthash::select_runtime_encoding(s).encoding);
		case 2: {
			const std::string t = s + "} tail";
			auto [e, it] = cthash::select_runtime_encoding(t);
			if (size_t(it - t.begin()) != s.size()) mc::fail("select_runtime_encoding(\"%s\") stops at %zd", show(t).c_str(), size_t(it - t.begin()));
			return which(e);
		}
		default: {
			const std::string got = way == 3 ? std::vformat("{:" + s + "}", std::make_format_args(value5)) : way == 4 ? std::vformat("<{0:" + s + "}>", std::make_format_args(tagged5)) : std::vformat("<{:" + s + "}>", std::make_format_args(shake5));
			const std::string text = way == 3 ? got : got.substr(1, got.size() - 2);
			for (int i = 0; i < enc_n; ++i)
				if (text == expected5(i)) {
					// two encodings give the same text for this value (padding does not show in five bytes): decide by a shorter one
					const cthash::hash_value<1> one{};
					const std::string t1 = std::vformat("{:" + s + "}", std::make_format_args(one));
					const uint8_t z = 0;
					for (int k = 0; k < enc_n; ++k)
						if (text == expected5(k) && t1 == ref::encode(ref::encodings[k], &z, 1)) return k;
				}
			return -2;
		}
		}
	} catch (const std::exception &) {
		return -1;
	}
}
static void check(const std::string & s, int ways = 6) {
	mc::state();
	const auto f = table().find(s);
	for (int way = 0; way < ways; ++way) {
		int want = f == table().end() ? -1 : f->second;
		if (s.empty() && way > 0) want = 6;
		if (way > 0 && (s.find('}') != s.npos || s.find('{') != s.npos)) continue; // belongs to the format string
		mc::transition(), mc::validated();
		const int got = select(s, way);
		static const char * w[] = {"runtime_encoding", "select_runtime_encoding", "select_runtime_encoding before '}'", "std::vformat", "std::vformat of a tagged value", "std::vformat of a SHAKE value"};
		if (got != want) mc::fail("%s with the name \"%s\" selects %s instead of %s", w[way], show(s).c_str(), got == -1 ? "nothing (rejected)" : got < 0 ? "an unknown text" : ref::encodings[got].name, want < 0 ? "being rejected" : ref::encodings[want].name);
		mc::outcome(uint64_t(got + 3));
	}
}
static std::vector<std::string> names() {
	std::vector<std::string> r;
	for (auto & [k, v]: table()) r.push_back(k);
	return r;
}
// alphabet: all characters of the names, their neighbours, separators, NUL and a non-ASCII byte
static const std::string alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- .:+/=<>^#%,;!?*$&|~@`'\"\\()[]"s + '\0' + "\x7f\x80\xc0\xff\n\t"s;
static void edits1(const std::string & s, const std::function<void(const std::string &)> & f, const std::string & abc) {
	for (size_t i = 0; i < s.size(); ++i) f(s.substr(0, i) + s.substr(i + 1));
	for (size_t i = 0; i + 1 < s.size(); ++i) {
		std::string t = s;
		std::swap(t[i], t[i + 1]);
		f(t);
	}
	for (char c: abc)
		for (size_t i = 0; i <= s.size(); ++i) {
			f(s.substr(0, i) + c + s.substr(i));
			if (i < s.size()) {
				std::string t = s;
				t[i] = c;
				f(t);
			}
		}
}
int main(int argc, char ** argv) {
	mc::add("names", [] {
		check("");
		for (auto & n: names()) check(n), mc::sample("\"%s\" -> %s", n.c_str(), ref::encodings[table().at(n)].name);
	});
	mc::add("short", [] {
		for (int a = 0; a < 256; ++a) {
			check(std::string(1, char(a)));
			for (int b = 0; b < 256; ++b) check(std::string{char(a), char(b)}, 3);
		}
		const std::string abc = "base16324_BASEhxdcoctlz";
		std::string s;
		const int depth = mc::thorough ? 5 : 4;
		std::function<void(int)> go = [&](int d) {
			check(s, s.size() <= 3 ? 6 : 2);
			if (d)
				for (char c: abc) s += c, go(d - 1), s.pop_back();
		};
		go(depth);
	});
	for (auto & n: names()) {
		mc::add("near-" + n, [n] {
			mc::context(n);
			edits1(n, [](const std::string & s) { check(s); }, alphabet);
			// two edits: every pair over a smaller alphabet
			const std::string abc = mc::thorough ? "base1632480_nopdigurlBASEHXDC xcthy-\x80"s : "as64_A \x80"s + '\0';
			edits1(n, [&](const std::string & s) { edits1(s, [](const std::string & t) { check(t, 2); }, abc); }, abc);
		});
		mc::add("grow-" + n, [n] {
			mc::context(n);
			// extensions of every length, prefixes and suffixes of every length
			for (size_t k = 1; k <= 300; ++k)
				for (char c: {'a', 'g', '0', '_', ' ', 'X', '\0', '\xff', n[0], n.back()}) check(n + std::string(k, c), k < 40 ? 6 : 2), check(std::string(k, c) + n, k < 40 ? 6 : 2);
			for (size_t i = 0; i < n.size(); ++i)
				for (size_t k = i; k <= n.size(); ++k) check(n.substr(i, k - i));
			for (auto & m: names()) {
				check(n + m), check(n + "_" + m), check(n + " " + m), check(m + n + m), check(n + ":" + m), check(n + std::string(1, '\0') + m);
				for (size_t i = 0; i <= n.size(); ++i)
					for (size_t k = 0; k <= m.size(); ++k) check(n.substr(0, i) + m.substr(k));
			}
			// every combination of upper and lower case (a name of up to 17 letters)
			std::vector<size_t> letters;
			for (size_t i = 0; i < n.size(); ++i)
				if (isalpha(static_cast<unsigned char>(n[i]))) letters.push_back(i);
			for (uint32_t m = 0; m < (1u << letters.size()); ++m) {
				std::string s = n;
				for (size_t i = 0; i < letters.size(); ++i) s[letters[i]] = char((m >> i) & 1 ? toupper(s[letters[i]]) : tolower(s[letters[i]]));
				check(s, m % 16 == 0 ? 6 : 2);
			}
		});
	}
	// wide format strings: a character outside the narrow range is never equal to a narrow one
	mc::add("wide", [] {
		auto wcheck = [](const std::wstring & w, int want) {
			mc::state(), mc::transition(), mc::validated();
			std::string shown;
			for (wchar_t c: w) {
				char t[16];
				snprintf(t, 16, c < 128 && c > 31 ? "%lc" : "\\u%04x", (unsigned)c);
				shown += t;
			}
			try {
				const auto got = std::vformat(L"{:" + w + L"}", std::make_wformat_args(value5));
				if (want < 0) mc::fail("wide std::vformat accepts the name \"%s\"", shown.c_str());
				else {
					const auto e = expected5(want);
					if (got != std::wstring(e.begin(), e.end())) mc::fail("wide std::vformat with the name \"%s\" does not select %s", shown.c_str(), ref::encodings[want].name);
				}
			} catch (const std::exception &) {
				if (want >= 0) mc::fail("wide std::vformat rejects the name \"%s\"", shown.c_str());
			}
		};
		wcheck(L"", 6);
		for (auto & [n, i]: table()) {
			const std::wstring w(n.begin(), n.end());
			wcheck(w, i);
			for (size_t k = 0; k < w.size(); ++k)
				for (uint32_t d: {0x100u, 0x200u, 0xff00u, 0x10000u, 0x80u, 0x20u, 0x1000000u, 0x80000000u}) {
					std::wstring t = w;
					t[k] = wchar_t(uint32_t(t[k]) + d);
					if (d == 0x20 && table().count(std::string(t.begin(), t.end()))) continue;
					wcheck(t, -1);
				}
			for (size_t k = 1; k <= 40; ++k)
				for (wchar_t c: {L'a', L'\0', L'0', wchar_t(0x100)}) wcheck(w + std::wstring(k, c), -1);
			for (size_t k = 1; k < w.size(); ++k)
				if (!table().count(n.substr(0, k))) wcheck(w.substr(0, k), -1);
		}
	});
	// several replacement fields are independent: every ordered pair and triple of fields
	mc::add("fields", [] {
		std::vector<std::string> f = names();
		f.push_back("");
		f.push_back("base16x"), f.push_back("base");
		auto want = [](const std::string & s) { return s.empty() ? 6 : table().count(s) ? table().at(s) : -1; };
		const cthash::hash_value<1> one{static_cast<std::array<std::byte, 1>>(std::array<std::byte, 1>{std::byte{0xa7}})};
		const uint8_t raw = 0xa7;
		auto text = [&](int e) { return ref::encode(ref::encodings[e], &raw, 1); };
		auto run = [&](const std::string & format, bool reject, const std::string & expected) {
			mc::state(), mc::transition(), mc::validated();
			try {
				const auto got = std::vformat(format, std::make_format_args(one, value5));
				if (reject) mc::fail("format \"%s\" is accepted", format.c_str());
				else if (got != expected) mc::fail("format \"%s\" gives '%s' instead of '%s'", format.c_str(), got.c_str(), expected.c_str());
			} catch (const std::exception & e) {
				if (!reject) mc::fail("format \"%s\" is rejected: %s", format.c_str(), e.what());
			}
		};
		for (auto & a: f)
			for (auto & b: f) {
				const bool rej = want(a) < 0 || want(b) < 0;
				run("{:" + a + "}|{:" + b + "}", rej, rej ? "" : text(want(a)) + "|" + expected5(want(b)));
				run("{1:" + a + "}{0:" + b + "}{1}", rej, rej ? "" : expected5(want(a)) + text(want(b)) + expected5(6));
				run("{0}{0:" + a + "}{0:" + b + "}{0}", rej, rej ? "" : text(6) + text(want(a)) + text(want(b)) + text(6));
				for (auto & c: f) {
					const bool r3 = rej || want(c) < 0;
					run("{0:" + a + "}{{{1:" + b + "}}}{0:" + c + "}", r3, r3 ? "" : text(want(a)) + "{" + expected5(want(b)) + "}" + text(want(c)));
				}
			}
	});
	return mc::run(argc, argv);
}
