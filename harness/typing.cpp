// C19: every ordered pair of value types x every way to mix them up, answered by the compiler.
#include "../common/mc.hpp"
#include "../common/alg.hpp"
#include <compare>
#include <tuple>
#include <utility>

template <class H> using value_of = decltype(std::declval<H &>().final());
template <class H, size_t N> using shake_of = decltype(std::declval<H &>().template final<N>());
template <class T, int Alg> struct entry { using type = T; static constexpr int alg = Alg; };
// alg: same number = same algorithm
using digests = std::tuple<
	entry<value_of<cthash::sha224>, 1>, entry<value_of<cthash::sha256>, 2>, entry<value_of<cthash::sha384>, 3>, entry<value_of<cthash::sha512>, 4>,
	entry<value_of<cthash::sha512t<224>>, 5>, entry<value_of<cthash::sha512t<256>>, 6>, entry<value_of<cthash::sha512t<8>>, 7>, entry<value_of<cthash::sha512t<32>>, 8>, entry<value_of<cthash::sha512t<64>>, 9>, entry<value_of<cthash::sha512t<128>>, 10>,
	entry<value_of<cthash::sha3_224>, 11>, entry<value_of<cthash::sha3_256>, 12>, entry<value_of<cthash::sha3_384>, 13>, entry<value_of<cthash::sha3_512>, 14>,
	entry<value_of<cthash::xxhash32>, 15>, entry<value_of<cthash::xxhash64>, 16>,
	entry<shake_of<cthash::shake128, 8>, 17>, entry<shake_of<cthash::shake128, 32>, 17>, entry<shake_of<cthash::shake128, 64>, 17>, entry<shake_of<cthash::shake128, 128>, 17>, entry<shake_of<cthash::shake128, 224>, 17>, entry<shake_of<cthash::shake128, 256>, 17>, entry<shake_of<cthash::shake128, 384>, 17>, entry<shake_of<cthash::shake128, 512>, 17>,
	entry<shake_of<cthash::shake256, 8>, 18>, entry<shake_of<cthash::shake256, 32>, 18>, entry<shake_of<cthash::shake256, 64>, 18>, entry<shake_of<cthash::shake256, 128>, 18>, entry<shake_of<cthash::shake256, 224>, 18>, entry<shake_of<cthash::shake256, 256>, 18>, entry<shake_of<cthash::shake256, 384>, 18>, entry<shake_of<cthash::shake256, 512>, 18>>;
static const char * names[] = {"sha224", "sha256", "sha384", "sha512", "sha512/224", "sha512/256", "sha512/8", "sha512/32", "sha512/64", "sha512/128", "sha3-224", "sha3-256", "sha3-384", "sha3-512", "xxh32", "xxh64",
	"shake128<8>", "shake128<32>", "shake128<64>", "shake128<128>", "shake128<224>", "shake128<256>", "shake128<384>", "shake128<512>", "shake256<8>", "shake256<32>", "shake256<64>", "shake256<128>", "shake256<224>", "shake256<256>", "shake256<384>", "shake256<512>"};

template <class A> void take(A);
template <class A> void take_const(const A &);
template <class A> void take_rvalue(A &&);
template <class A> void take_ref(std::type_identity_t<A> &);
template <class A> struct holder { A a; };

static void expect(bool got, bool want, const char * a, const char * b, const char * what) {
	mc::transition(), mc::validated();
	if (got != want) mc::fail("%s and %s: %s %s", a, b, what, got ? "is possible" : "is not possible");
}
// what must not compile for values of different algorithms: A is the target, B the source
template <class A, class B> static void foreign(const char * a, const char * b) {
	const bool no = false;
	auto kinds = [&]<class S>(const char * kind) {
		char w[120];
		auto what = [&](const char * x) { snprintf(w, sizeof w, "%s (from %s)", x, kind); return w; };
		expect(std::is_convertible_v<S, A>, no, a, b, what("implicit conversion"));
		expect(std::is_convertible_v<S, A &>, no, a, b, what("binding to a reference"));
		expect(std::is_convertible_v<S, const A &>, no, a, b, what("binding to a const reference"));
		expect(std::is_convertible_v<S, A &&>, no, a, b, what("binding to an rvalue reference"));
		expect(std::is_assignable_v<A &, S>, no, a, b, what("assignment"));
		expect(requires(A & x, S y) { x = {static_cast<S &&>(y)}; }, no, a, b, what("assignment from braces"));
		expect(requires(S y) { take<A>(static_cast<S &&>(y)); }, no, a, b, what("passing by value"));
		expect(requires(S y) { take_const<A>(static_cast<S &&>(y)); }, no, a, b, what("passing by const reference"));
		expect(requires(S y) { take<A>({static_cast<S &&>(y)}); }, no, a, b, what("passing in braces"));
		expect(requires(S y) { holder<A>{static_cast<S &&>(y)}; }, no, a, b, what("aggregate initialisation"));
		expect(std::is_convertible_v<S *, A *>, no, a, b, "pointer conversion") ;
	};
	kinds.template operator()<B>("rvalue");
	expect(std::is_convertible_v<B &, A>, no, a, b, "implicit conversion from lvalue");
	expect(std::is_convertible_v<const B &, A>, no, a, b, "implicit conversion from const lvalue");
	expect(std::is_assignable_v<A &, B &>, no, a, b, "assignment of lvalue");
	expect(std::is_assignable_v<A &, const B &>, no, a, b, "assignment of const lvalue");
	expect(requires(const A & x, const B & y) { x == y; }, no, a, b, "==");
	expect(requires(const A & x, const B & y) { x != y; }, no, a, b, "!=");
	expect(requires(const A & x, const B & y) { x < y; }, no, a, b, "<");
	expect(requires(const A & x, const B & y) { x > y; }, no, a, b, ">");
	expect(requires(const A & x, const B & y) { x <= y; }, no, a, b, "<=");
	expect(requires(const A & x, const B & y) { x >= y; }, no, a, b, ">=");
	expect(requires(const A & x, const B & y) { x <=> y; }, no, a, b, "<=>");
	expect(requires(A & x, B & y) { x == y; }, no, a, b, "== of non-const values");
	expect(requires(A x, B y) { static_cast<A &&>(x) == static_cast<B &&>(y); }, no, a, b, "== of rvalues");
	expect(std::three_way_comparable_with<A, B>, no, a, b, "three_way_comparable_with");
}
// what must compile
template <class A> static void own(const char * a) {
	expect(std::is_convertible_v<const A &, A> && std::is_assignable_v<A &, const A &> && std::is_nothrow_default_constructible_v<A>, true, a, a, "copying");
	expect(requires(const A & x, const A & y) { { x == y } -> std::convertible_to<bool>; { x != y } -> std::convertible_to<bool>; { x < y } -> std::convertible_to<bool>; { x >= y } -> std::convertible_to<bool>; x <=> y; }, true, a, a, "comparison");
}
template <class A, class C, size_t N, size_t L> static void wrong_length(const char * a, const char * c) {
	if constexpr (L > 0 && L != 2 * N + 1) expect(std::is_constructible_v<A, const C(&)[L]>, false, a, c, ("construction from text of " + std::to_string(L - 1) + " digits").c_str());
}
template <class A, class C, size_t N, size_t... L> static void wrong_lengths(const char * a, const char * c, std::index_sequence<L...>) { (wrong_length<A, C, N, L>(a, c), ...); }
// raw arrays and texts: explicit only, right length only
template <class A> static void raw(const char * a) {
	constexpr size_t N = std::tuple_size_v<std::array<std::byte, sizeof(A)>>;
	using arr = std::array<std::byte, N>;
	expect(std::is_convertible_v<arr, A>, false, a, "array of its bytes", "implicit conversion");
	expect(std::is_convertible_v<const arr &, A>, false, a, "array of its bytes", "implicit conversion from lvalue");
	expect(std::is_assignable_v<A &, arr>, false, a, "array of its bytes", "assignment");
	expect(requires(A & x, arr y) { x = {std::move(y)}; }, false, a, "array of its bytes", "assignment from braces");
	expect(requires(arr y) { take<A>({std::move(y)}); }, false, a, "array of its bytes", "passing in braces");
	expect(std::is_constructible_v<A, arr>, true, a, "array of its bytes", "explicit construction");
	expect(std::is_constructible_v<A, std::array<std::byte, N + 1>> || std::is_constructible_v<A, std::array<std::byte, N - 1>>, false, a, "array of another size", "construction");
	if constexpr (!std::is_same_v<A, cthash::hash_value<N>>) {
		expect(std::is_convertible_v<cthash::hash_value<N>, A>, false, a, "plain value of its size", "implicit conversion");
		expect(std::is_assignable_v<A &, cthash::hash_value<N>>, false, a, "plain value of its size", "assignment");
	}
	auto text = [&]<class C>(const char * c) {
		using lit = const C(&)[2 * N + 1];
		using fix = cthash::fixed_string<C, 2 * N>;
		expect(std::is_convertible_v<lit, A>, false, a, c, "implicit conversion from text");
		expect(std::is_assignable_v<A &, lit>, false, a, c, "assignment from text");
		expect(requires(A & x, lit y) { x = {y}; }, false, a, c, "assignment from text in braces");
		expect(requires(lit y) { take<A>({y}); }, false, a, c, "passing text in braces");
		expect(std::is_constructible_v<A, lit>, true, a, c, "explicit construction from text");
		expect(std::is_convertible_v<fix, A>, false, a, c, "implicit conversion from fixed_string");
		expect(std::is_assignable_v<A &, fix>, false, a, c, "assignment from fixed_string");
		expect(std::is_constructible_v<A, fix>, true, a, c, "explicit construction from fixed_string");
		wrong_lengths<A, C, N>(a, c, std::make_index_sequence<2 * N + 8>{});
		wrong_length<A, C, N, 4 * N + 1>(a, c), wrong_length<A, C, N, N + 1>(a, c), wrong_length<A, C, N, 4 * N>(a, c);
	};
	text.template operator()<char>("char text");
	text.template operator()<wchar_t>("wchar_t text");
	text.template operator()<char8_t>("char8_t text");
	text.template operator()<char16_t>("char16_t text");
	text.template operator()<char32_t>("char32_t text");
}
constexpr size_t n_types = std::tuple_size_v<digests>;
template <size_t I, size_t K> static void cell() {
	using EA = std::tuple_element_t<I, digests>;
	using EB = std::tuple_element_t<K, digests>;
	mc::at("pair %llu %llu", I, K);
	mc::state();
	if constexpr (EA::alg != EB::alg) foreign<typename EA::type, typename EB::type>(names[I], names[K]);
	else if constexpr (I == K) own<typename EA::type>(names[I]);
	mc::outcome(I * 64 + K);
}
template <size_t I, size_t... K> static void row(std::index_sequence<K...>) {
	if constexpr (I % 4 == PART) {
		mc::add(std::string("row-") + names[I], [] {
			(cell<I, K>(), ...);
			raw<typename std::tuple_element_t<I, digests>::type>(names[I]);
			mc::sample("%s: against %zu other types in 22 ways, arrays and texts", names[I], n_types - 1);
		});
	}
}
template <size_t... I> static void rows(std::index_sequence<I...>) { (row<I>(std::make_index_sequence<n_types>{}), ...); }
template <size_t N, size_t M> static void plain_cell() {
	const std::string a = "plain " + std::to_string(N), b = "plain " + std::to_string(M);
	mc::state();
	if constexpr (N != M) foreign<cthash::hash_value<N>, cthash::hash_value<M>>(a.c_str(), b.c_str());
	else own<cthash::hash_value<N>>(a.c_str()), raw<cthash::hash_value<N>>(a.c_str());
}
template <size_t N, size_t... M> static void plain_row(std::index_sequence<M...>) { (plain_cell<N, M>(), ...); }
template <size_t... N> static void plain(std::index_sequence<N...> s) { (plain_row<N>(s), ...); }
int main(int argc, char ** argv) {
	rows(std::make_index_sequence<n_types>{});
	if (PART == 0) mc::add("plain", [] { plain(std::index_sequence<1, 2, 4, 8, 20, 28, 32, 33, 48, 64>{}); });
	return mc::run(argc, argv);
}
