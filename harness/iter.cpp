// C26: every sequence of iterator operations over encoding views, against "position in the text".
#include "../common/mc.hpp"
#include "../common/enc.hpp"
#include <list>
#include <deque>
#include <deque>
#include <forward_list>
#include <ranges>

// one exploration: two iterators of the same view, operations over both, model = two positions
// op: 0 ++a, 1 a++ (result kept in b), 2 a++ (result only looked at), 3 b=a, 4 a=b, 5 a=begin, 6 b=begin, 7 ++b, 8 *a++ , 9 fresh walk, 10 move b into a and back
constexpr int n_ops = 11;
static const char * op_name[n_ops] = {"++a", "b=a++", "*(a++)", "b=a", "a=b", "a=begin", "b=begin", "++b", "read a twice", "walk from begin", "a=move(b);b=a"};

template <class View> struct space {
	using It = decltype(std::declval<View &>().begin());
	View & v;
	const std::string & text;
	const char * what;
	std::vector<int> path;

	std::string trail() const {
		std::string s;
		for (int o: path) s += (s.empty() ? "" : "; ") + std::string(op_name[o]);
		return s;
	}
	void look(const It & it, size_t pos, const char * who) {
		const bool end = it == v.end();
		if (end != (pos == text.size())) mc::fail("%s '%s' after [%s]: iterator %s at position %zu %s the end", what, text.c_str(), trail().c_str(), who, pos, end ? "is at" : "is not at");
		if ((v.end() == it) != end || (it != v.end()) == end) mc::fail("%s: comparison with the sentinel is inconsistent after [%s]", what, trail().c_str());
		if (!end) {
			const char c = static_cast<char>(*it), d = static_cast<char>(*it);
			if (c != text[pos] || d != c) mc::fail("%s '%s' after [%s]: iterator %s at position %zu reads '%c' then '%c' instead of '%c'", what, text.c_str(), trail().c_str(), who, pos, c, d, text[pos]);
		}
	}
	struct st { It a, b; size_t pa, pb; };
	// returns false if the operation is not allowed in this state
	bool apply(st & s, int op) {
		const size_t n = text.size();
		path.push_back(op);
		switch (op) {
		case 0:
			if (s.pa == n) return false;
			if (&++s.a != &s.a) mc::fail("++ does not return the iterator itself");
			++s.pa;
			break;
		case 1: {
			if (s.pa == n) return false;
			s.b = s.a++;
			s.pb = s.pa++;
			break;
		}
		case 2: {
			if (s.pa == n) return false;
			const char c = static_cast<char>(*(s.a++));
			if (c != text[s.pa]) mc::fail("%s '%s' after [%s]: *it++ is '%c' instead of '%c'", what, text.c_str(), trail().c_str(), c, text[s.pa]);
			++s.pa;
			break;
		}
		case 3: s.b = s.a, s.pb = s.pa; break;
		case 4: s.a = s.b, s.pa = s.pb; break;
		case 5: s.a = v.begin(), s.pa = 0; break;
		case 6: s.b = v.begin(), s.pb = 0; break;
		case 7:
			if (s.pb == n) return false;
			++s.b, ++s.pb;
			break;
		case 8: look(s.a, s.pa, "a"), look(s.a, s.pa, "a"); break;
		case 9: {
			std::string got;
			for (auto it = v.begin(); it != v.end() && got.size() < n + 8; ++it) got += static_cast<char>(*it);
			if (got != text) mc::fail("%s after [%s]: a fresh walk gives '%s' instead of '%s'", what, trail().c_str(), got.c_str(), text.c_str());
			break;
		}
		case 10: s.a = std::move(s.b), s.b = s.a, s.pa = s.pb; break;
		}
		mc::transition();
		look(s.a, s.pa, "a"), look(s.b, s.pb, "b");
		if constexpr (requires { bool(s.a == s.b); }) {
			if ((s.a == s.b) != (s.pa == s.pb) || (s.b == s.a) != (s.pa == s.pb) || (s.a != s.b) == (s.pa == s.pb)) mc::fail("%s '%s' after [%s]: iterators at positions %zu and %zu compare %s", what, text.c_str(), trail().c_str(), s.pa, s.pb, s.a == s.b ? "equal" : "different");
		}
		return true;
	}
	void dfs(const st & s, int depth) {
		mc::validated();
		if (!depth) return;
		for (int op = 0; op < n_ops; ++op) {
			st t = s;
			if (apply(t, op)) dfs(t, depth - 1);
			path.pop_back();
		}
	}
	// every pair of positions, every operation in it (the state of an iterator is determined by how it was reached: reached by ++ and by copies)
	void pairs() {
		for (size_t i = 0; i <= text.size(); ++i) {
			st s{v.begin(), v.begin(), 0, 0};
			for (size_t k = 0; k < i; ++k) ++s.a, ++s.pa;
			for (size_t k = 0; k <= text.size(); ++k) {
				mc::state();
				dfs(s, mc::thorough ? 3 : 2);
				if (k < text.size()) s.b++, ++s.pb;
			}
		}
	}
};
template <class View> static void explore(View & v, const std::string & text, const char * what, int depth) {
	using S = space<View>;
	S sp{v, text, what, {}};
	if constexpr (requires { v.size(); })
		if (v.size() != text.size()) mc::fail("%s '%s': size() is %zu", what, text.c_str(), size_t(v.size()));
	mc::state();
	sp.pairs();
	typename S::st s{v.begin(), v.begin(), 0, 0};
	sp.look(s.a, 0, "a");
	sp.dfs(s, depth);
	if constexpr (requires { v.size(); })
		if (v.size() != text.size()) mc::fail("%s '%s': size() is %zu after iterating", what, text.c_str(), size_t(v.size()));
	mc::outcome(mc::fnv(text.data(), text.size()));
}
template <int I> static void run_case(size_t n, int kind, int depth) {
	using T = enc_type<I>;
	const auto & e = ref::encodings[I];
	auto m = message(kind, n);
	const auto before = m;
	const std::string text = ref::encode(e, m.data(), n);
	constexpr auto a = enc_at<I>::action;
	auto name = [&](const char * s) { static thread_local char b[128]; snprintf(b, sizeof b, "%s %s", e.name, s); return b; };
	{
		const auto v = std::span<const unsigned char>(m) | a;
		explore(v, text, name("const view of span"), depth);
	}
	{
		auto v = m | a;
		explore(v, text, name("view of vector &"), depth);
		const auto & cv = v;
		explore(cv, text, name("const view of vector &"), depth - 1);
		auto w = v; // a copied view is independent
		explore(w, text, name("copied view"), depth - 1);
	}
	{
		auto v = std::vector<unsigned char>(m) | a;
		explore(v, text, name("owning view"), depth - 1);
		const auto w = std::move(v);
		explore(w, text, name("moved owning view"), depth - 1);
	}
	{
		std::list<signed char> li(m.begin(), m.end());
		auto v = li | a;
		explore(v, text, name("view of list<signed char>"), depth - 1);
		const std::deque<std::byte> dq = [&] { std::deque<std::byte> d; for (auto c: m) d.push_back(std::byte(c)); return d; }();
		const auto w = dq | a;
		explore(w, text, name("view of deque<byte>"), depth - 1);
	}
	{
		auto v = std::span<const unsigned char>(m) | cthash::encode_to<T, wchar_t>;
		explore(v, text, name("view to wchar_t"), depth - 1);
	}
	{
		const std::forward_list<char> fl(m.begin(), m.end());
		const auto v = fl | a;
		explore(v, text, name("view of forward_list"), depth - 1);
	}
	if (m != before) mc::fail("%s: iterating changed the source", e.name);
}
// chunk view iterators: values and missing bits
template <size_t Out, class El, bool Pad> static void chunk_case(size_t n, int depth) {
	std::vector<El> src(n);
	for (size_t i = 0; i < n; ++i)
		for (size_t k = 0; k < sizeof(El); ++k) src[i] = static_cast<El>((src[i] << (sizeof(El) > 1 ? 8 : 0)) | pattern(0, i * sizeof(El) + k));
	const cthash::chunk_of_bits_view<Out, Pad, std::span<const El>> v{std::span<const El>(src)};
	std::vector<std::pair<uint64_t, unsigned>> want;
	for (auto it = v.begin(); !(it == v.end()); ++it) want.emplace_back(uint64_t((*it).value), unsigned((*it).missing_bits));
	if (v.size() != want.size()) mc::fail("chunk view: size() %zu, %zu groups", size_t(v.size()), want.size());
	// two iterators, all interleavings of their steps, with copies at every point
	for (size_t i = 0; i <= want.size(); ++i)
		for (size_t k = 0; k <= want.size(); ++k) {
			auto a = v.begin();
			for (size_t x = 0; x < i; ++x) ++a;
			auto b = a;
			if (k < i) {
				b = v.begin();
				for (size_t x = 0; x < k; ++x) b++;
			} else
				for (size_t x = i; x < k; ++x) ++b;
			mc::state(), mc::transition(i + k), mc::validated();
			auto ok = [&](auto & it, size_t pos) { return (it == v.end()) == (pos == want.size()) && (pos == want.size() || (uint64_t((*it).value) == want[pos].first && unsigned((*it).missing_bits) == want[pos].second && uint64_t((*it).value) == want[pos].first)); };
			if (!ok(a, i) || !ok(b, k)) mc::fail("chunk view %zu of %zu elements of %zu bytes: iterators at %zu and %zu disturb each other", Out, n, sizeof(El), i, k);
			if constexpr (requires { bool(a == b); })
				if ((a == b) != (i == k)) mc::fail("chunk view %zu of %zu elements of %zu bytes: iterators at %zu and %zu compare %s", Out, n, sizeof(El), i, k, a == b ? "equal" : "different");
			if (i < want.size()) {
				auto c = a++;
				if (!ok(c, i) || !ok(a, i + 1) || !ok(b, k)) mc::fail("chunk view %zu: post-increment at %zu", Out, i);
			}
		}
}

int main(int argc, char ** argv) {
	[&]<int... I>(std::integer_sequence<int, I...>) {
		(([&] {
			 mc::add(std::string("iter-") + ref::encodings[I].name, [] {
				 const size_t top = mc::thorough ? 33 : 17;
				 for (size_t n = 0; n <= top; ++n)
					 for (int kind: {0, 1}) {
						 mc::at("length %llu pattern %llu", n, uint64_t(kind));
						 run_case<I>(n, kind, n <= 6 ? (mc::thorough ? 7 : 6) : 3);
					 }
				 mc::sample("%s: all sequences of %d iterator operations on sources of 0..6 bytes, 2 (thorough: 3) operations from every pair of positions to %zu bytes", ref::encodings[I].name, mc::thorough ? 7 : 6, top);
			 });
		 }()),
		...);
	}(std::integer_sequence<int, ENCS>{});
	if (CHUNKS)
		mc::add("chunks", [] {
			for (size_t n = 0; n <= 9; ++n) {
				chunk_case<5, unsigned char, false>(n, 3), chunk_case<5, unsigned char, true>(n, 3), chunk_case<6, signed char, true>(n, 3), chunk_case<7, unsigned char, true>(n, 3), chunk_case<12, unsigned char, true>(n, 3), chunk_case<24, unsigned char, false>(n, 3);
				chunk_case<4, uint32_t, false>(n, 3), chunk_case<3, uint16_t, true>(n, 3), chunk_case<16, int64_t, false>(n, 3), chunk_case<12, int16_t, false>(n, 3);
			}
		});
	return mc::run(argc, argv);
}
