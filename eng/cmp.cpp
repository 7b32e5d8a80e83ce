// The six comparison operators of every template against the order of the abstract values, whatever produced the objects.
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <ptl/array.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include "../rt/elems.hpp"
#include "../rt/routes.hpp"

namespace {
	using namespace mon;
	int three(const std::vector<int> & a, const std::vector<int> & b) { return a < b ? -1 : a == b ? 0 : 1; }
	int three(int a, int b) { return (a > b) - (a < b); }
	int three(const std::string & a, const std::string & b) { // characters compare as unsigned
		for(std::size_t i{0}; i < a.size() && i < b.size(); ++i) if(a[i] != b[i]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[i]) ? -1 : 1;
		return (a.size() > b.size()) - (a.size() < b.size());
	}
	const char * const op_names[]{"==", "!=", "<", "<=", ">", ">="};
	template<typename A, typename B> void six(const char * what, const A & a, const B & b, int c, bool eq) {
		const bool got[]{SUT(a == b), SUT(a != b), SUT(a < b), SUT(a <= b), SUT(a > b), SUT(a >= b)};
		const bool want[]{eq, !eq, c < 0, c <= 0, c > 0, c >= 0};
		for(int i{0}; i < 6; ++i) CHECK("C12", "wrong-order", got[i] == want[i], "%s: operator%s yields %d for values whose order is %d", what, op_names[i], got[i], c);
		switch(c) { case 0: HIT("equal pairs"); break; case 1: HIT("greater pairs"); break; default: HIT("lesser pairs"); }
		n_ops.fetch_add(6, std::memory_order_relaxed);
	}
	template<typename A, typename B> void both(const char * what, const A & a, const B & b, int c, bool eq) { six(what, a, b, c, eq); six(what, b, a, -c, eq); }
	template<typename A, typename B> void both(const char * what, const A & a, const B & b, int c) { both(what, a, b, c, c == 0); }

	// element types: an abstract value is a number 0..4, encoded in an order preserving way (with freedom where values are equal)
	constexpr int top{5};
	struct Odd { int v; unsigned char junk; friend bool operator==(const Odd & a, const Odd & b) noexcept { return a.v == b.v; } friend bool operator!=(const Odd & a, const Odd & b) noexcept { return a.v != b.v; } friend bool operator<(const Odd & a, const Odd & b) noexcept { return a.v < b.v; } friend bool operator<=(const Odd & a, const Odd & b) noexcept { return a.v <= b.v; } friend bool operator>(const Odd & a, const Odd & b) noexcept { return a.v > b.v; } friend bool operator>=(const Odd & a, const Odd & b) noexcept { return a.v >= b.v; } };
	struct Back { int v; friend bool operator==(const Back & a, const Back & b) noexcept { return a.v == b.v; } friend bool operator!=(const Back & a, const Back & b) noexcept { return a.v != b.v; } friend bool operator<(const Back & a, const Back & b) noexcept { return a.v > b.v; } friend bool operator<=(const Back & a, const Back & b) noexcept { return a.v >= b.v; } friend bool operator>(const Back & a, const Back & b) noexcept { return a.v < b.v; } friend bool operator>=(const Back & a, const Back & b) noexcept { return a.v <= b.v; } }; // descending
	template<typename T> struct Enc;
	template<> struct Enc<int> { static const char * name() { return "int"; } static int of(Rng &, int m) { static const int t[]{-2147483647 - 1, -1, 0, 256, 2147483647}; return t[m]; } };
	template<> struct Enc<unsigned> { static const char * name() { return "unsigned"; } static unsigned of(Rng &, int m) { static const unsigned t[]{0, 1, 256, 2147483648u, 4294967295u}; return t[m]; } };
	template<> struct Enc<signed char> { static const char * name() { return "signed char"; } static signed char of(Rng &, int m) { static const signed char t[]{-128, -1, 0, 1, 127}; return t[m]; } };
	template<> struct Enc<unsigned char> { static const char * name() { return "unsigned char"; } static unsigned char of(Rng &, int m) { static const unsigned char t[]{0, 1, 127, 128, 255}; return t[m]; } };
	template<> struct Enc<double> { static const char * name() { return "double"; } static double of(Rng & r, int m) { static const double t[]{-1e300, -0.5, 0.0, 1e-300, 7}; return m == 2 && r.chance(1, 2) ? -0.0 : t[m]; } };
	template<> struct Enc<short> { static const char * name() { return "short"; } static short of(Rng &, int m) { static const short t[]{-32768, -1, 0, 256, 32767}; return t[m]; } };
	template<> struct Enc<float> { static const char * name() { return "float"; } static float of(Rng & r, int m) { static const float t[]{-1e30f, -0.5f, 0.0f, 1e-30f, 7}; return m == 2 && r.chance(1, 2) ? -0.0f : t[m]; } };
	template<> struct Enc<unsigned long long> { static const char * name() { return "unsigned long long"; } static unsigned long long of(Rng &, int m) { static const unsigned long long t[]{0, 1, 1ull << 32, (1ull << 32) + 1, ~0ull}; return t[m]; } };
	template<> struct Enc<Color> { static const char * name() { return "enum"; } static Color of(Rng &, int m) { static const unsigned char t[]{0, 1, 127, 128, 255}; return static_cast<Color>(t[m]); } };
	template<> struct Enc<const int *> { static const char * name() { return "pointer"; } static const int * of(Rng &, int m) { static const int t[]{0, 1, 64, 2048, 4998}; return cells + t[m]; } };
	template<> struct Enc<Odd> { static const char * name() { return "padded struct"; } static Odd of(Rng & r, int m) { return {m - 2, static_cast<unsigned char>(r.next())}; } };
	template<> struct Enc<Back> { static const char * name() { return "descending struct"; } static Back of(Rng &, int m) { return {2 - m}; } };
	template<> struct Enc<std::string> { static const char * name() { return "std::string"; } static std::string of(Rng &, int m) { static const char * const t[]{"", "a", "a text that is too long to be stored inline", "b", "\xff"}; return t[m]; } };
	template<> struct Enc<ptl::string> { static const char * name() { return "ptl::string"; } static ptl::string of(Rng & r, int m) { static const std::string t[]{"", std::string("a\0a", 3), "a text that is too long to be stored inline", "b", "\xff"}; return route_string(r, t[m]); } };
	template<> struct Enc<Tr<0>> { static const char * name() { return "tracked"; } static Tr<0> of(Rng &, int m) { return Tr<0>{m + 1}; } };
	using M = std::vector<int>;
	M model(Rng & r, std::size_t n) { M m(n); for(auto & x : m) x = static_cast<int>(r.below(top)); return m; }
	M relative(Rng & r, const M & m, std::size_t max, bool fixed) { // a value related to m
		M o{m};
		switch(r.below(6)) {
			case 0: break;
			case 1: case 2: if(!o.empty()) o[r.below(o.size())] = static_cast<int>(r.below(top)); break;
			case 3: if(!fixed && !o.empty()) o.resize(r.below(o.size())); else if(!o.empty()) o.back() = static_cast<int>(r.below(top)); break;
			case 4: if(!fixed && o.size() < max) o.push_back(static_cast<int>(r.below(top))); else if(!o.empty()) o.front() = static_cast<int>(r.below(top)); break;
			default: o = model(r, fixed ? m.size() : r.below(max + 1)); if(!o.empty() && !m.empty() && r.chance(1, 2)) o[0] = m[0];
		}
		return o;
	}
	std::string show(const M & m) { std::string s{"["}; for(auto x : m) s += std::to_string(x) + " "; return s + "]"; }
	void seen(const char * kind, const char * elem, const M & a, const M & b) { Hash h; h.add(kind, std::strlen(kind)); h.add(elem, std::strlen(elem)); h.add(a.size()); for(auto x : a) h.add(x); h.add(b.size()); for(auto x : b) h.add(x); state(h.h); }

	template<typename T> void vectors(Rng & r) {
		for(int i{0}; i < 12 && !poisoned; ++i) {
			const auto top_n{r.chance(1, 5) ? 60u : 8u}; const auto a{model(r, r.below(top_n))}; const auto b{relative(r, a, top_n, false)};
			OP("vector<%s> %s ? %s", Enc<T>::name(), show(a).c_str(), show(b).c_str());
			Place<ptl::vector<T>> x{r, route_vector<T>(r, a.size(), [&](std::size_t j) { return Enc<T>::of(r, a[j]); })}, y{r, route_vector<T>(r, b.size(), [&](std::size_t j) { return Enc<T>::of(r, b[j]); })};
			both("vector", *x, *y, three(a, b)); both("vector with itself", *x, *x, 0);
			seen("vector", Enc<T>::name(), a, b);
		}
	}
	template<typename T, std::size_t N, std::size_t... I> ptl::array<T, N> array_of(Rng & r, const M & m, std::index_sequence<I...>) { return ptl::array<T, N>{Enc<T>::of(r, m[I])...}; }
	template<typename T, std::size_t N> void array_n(Rng & r) {
		const auto a{model(r, N)}; const auto b{relative(r, a, N, true)};
		OP("array<%s, %zu> %s ? %s", Enc<T>::name(), N, show(a).c_str(), show(b).c_str());
		Place<ptl::array<T, N>> x{r, array_of<T, N>(r, a, std::make_index_sequence<N>{})}, y{r, array_of<T, N>(r, b, std::make_index_sequence<N>{})};
		both("array", *x, *y, three(a, b)); both("array with itself", *x, *x, 0);
		seen("array", Enc<T>::name(), a, b);
	}
	template<typename T> void arrays(Rng & r) { for(int i{0}; i < 5 && !poisoned; ++i) { array_n<T, 0>(r); array_n<T, 1>(r); array_n<T, 2>(r); array_n<T, 5>(r); array_n<T, 9>(r); } }
	template<typename T> void optionals(Rng & r) {
		using O = ptl::optional<T>;
		for(int i{0}; i < 25 && !poisoned; ++i) {
			const int a{static_cast<int>(r.below(top + 1)) - 1}; const int b{r.chance(1, 3) ? a : static_cast<int>(r.below(top + 1)) - 1}; // -1: empty
			OP("optional<%s> %d ? %d", Enc<T>::name(), a, b);
			auto put{[&](O & o, int m) { // through different histories
				if(r.chance(1, 2)) o.emplace(Enc<T>::of(r, static_cast<int>(r.below(top))));
				if(m < 0) { if(r.chance(1, 2)) o.reset(); else o = std::nullopt; }
				else if(r.chance(1, 2)) o = Enc<T>::of(r, m);
				else o.emplace(Enc<T>::of(r, m));
				if(o.has_value() != (m >= 0)) violate("C09", "route", "an optional is not engaged as it should be");
			}};
			Place<O> x{r}, y{r};
			put(*x, a); put(*y, b);
			if(poisoned) return;
			both("optional", *x, *y, three(a, b)); both("optional with itself", *x, *x, 0);
			both("optional with nullopt", *x, std::nullopt, a >= 0); both("optional with nullopt", *y, std::nullopt, b >= 0);
			if(b >= 0) { const T v{Enc<T>::of(r, b)}; both("optional with value", *x, v, three(a, b)); both("optional with own value", *y, **y, 0); HIT("optional ? value"); }
			if(a < 0 && b < 0) HIT("empty ? empty");
			if(a < 0 && b >= 0) HIT("empty ? engaged");
			seen("optional", Enc<T>::name(), {a}, {b});
		}
	}
	using V = ptl::variant<int, ptl::string, Odd, double, std::string, Back, Tr<0>>;
	using W = ptl::variant<unsigned char, int>;
	template<typename X> void store(Rng & r, V & v, int m) { if(r.chance(1, 2)) v = Enc<X>::of(r, m); else v.template emplace<X>(Enc<X>::of(r, m)); }
	void put(Rng & r, V & v, int alt, int m) { switch(alt) { case 0: store<int>(r, v, m); break; case 1: store<ptl::string>(r, v, m); break; case 2: store<Odd>(r, v, m); break; case 3: store<double>(r, v, m); break; case 4: store<std::string>(r, v, m); break; case 5: store<Back>(r, v, m); break; default: store<Tr<0>>(r, v, m); } }
	void variants(Rng & r) {
		for(int i{0}; i < 25 && !poisoned; ++i) {
			const int a{static_cast<int>(r.below(7))}, m{static_cast<int>(r.below(top))};
			const int b{r.chance(2, 3) ? a : static_cast<int>(r.below(7))}, n{r.chance(1, 3) ? m : static_cast<int>(r.below(top))};
			OP("variant %d/%d ? %d/%d", a, m, b, n);
			Place<V> x{r}, y{r};
			if(r.chance(1, 2)) put(r, *x, static_cast<int>(r.below(7)), static_cast<int>(r.below(top)));
			if(r.chance(1, 2)) put(r, *y, static_cast<int>(r.below(7)), static_cast<int>(r.below(top)));
			put(r, *x, a, m); put(r, *y, b, n);
			both("variant", *x, *y, a != b ? three(a, b) : three(m, n)); both("variant with itself", *x, *x, 0);
			if(a != b) HIT("different alternatives");
			seen("variant", "", {a, m}, {b, n});
			const int k{static_cast<int>(r.below(2))}, l{static_cast<int>(r.below(2))}; const int p{static_cast<int>(r.below(top))}, q{static_cast<int>(r.below(top))};
			Place<W> s{r}, t{r};
			*s = int{-1}; *t = static_cast<unsigned char>(9);
			if(k) *s = Enc<int>::of(r, p); else *s = Enc<unsigned char>::of(r, p);
			if(l) *t = Enc<int>::of(r, q); else *t = Enc<unsigned char>::of(r, q);
			both("variant", *s, *t, k != l ? three(k, l) : three(p, q));
		}
	}
	template<typename... T> void tuple_n(Rng & r) {
		using Tup = ptl::tuple<T...>;
		const auto a{model(r, sizeof...(T))}; const auto b{relative(r, a, sizeof...(T), true)};
		OP("tuple of %zu %s ? %s", sizeof...(T), show(a).c_str(), show(b).c_str());
		auto make{[&](const M & m) { std::size_t i{0}; return std::tuple<T...>{Enc<T>::of(r, m[i++])...}; }};
		auto build{[](std::tuple<T...> t) { return std::apply([](auto &... x) { return Tup(std::move(x)...); }, t); }};
		Place<Tup> x{r, build(make(a))}, y{r, build(make(b))};
		both("tuple", *x, *y, three(a, b)); both("tuple with itself", *x, *x, 0);
		seen("tuple", "", a, b);
	}
	void tuples(Rng & r) { for(int i{0}; i < 6 && !poisoned; ++i) { tuple_n<int, double>(r); tuple_n<Odd, ptl::string, signed char>(r); tuple_n<Tr<0>, Back, std::string, int>(r); tuple_n<unsigned char, unsigned char, unsigned char, int, unsigned>(r); } }

	void strings(Rng & r) {
		for(int i{0}; i < 12 && !poisoned; ++i) {
			static const std::size_t ls[]{0, 1, 5, 21, 22, 23, 24, 40, 64, 65};
			const std::string a{odd_text(r, r.chance(1, 2) ? ls[r.below(10)] : r.below(70))};
			std::string b{a};
			switch(r.below(6)) {
				case 0: break;
				case 1: case 2: if(!b.empty()) b[r.chance(1, 2) ? r.below(b.size()) : b.size() - 1] = odd_text(r, 1)[0]; break;
				case 3: b.resize(r.below(b.size() + 1)); break;
				case 4: b += odd_text(r, r.range(1, 3)); break;
				default: b = odd_text(r, r.below(40));
			}
			const int c{three(a, b)};
			Place<ptl::string> x{r, route_string(r, a)}, y{r, route_string(r, b)};
			if(poisoned) return;
			OP("string of %zu ? string of %zu (order %d)", a.size(), b.size(), c);
			both("string", *x, *y, c); both("string with itself", *x, *x, 0);
			both("string with string_view", *x, std::string_view{b}, c); both("string with std::string", *x, b, c);
			both("string with view of itself", *x, std::string_view{*x}, 0);
			const ptl::string_ref ra{std::string_view{*x}}, rb{b.data(), b.size()}, rx{a.data(), a.size()};
			both("string_ref", ra, rb, c); both("string_ref", rx, ra, 0); both("string with string_ref", *x, rb, c);
			if(b.find('\0') == std::string::npos) { both("string with c-string", *x, b.c_str(), c); both("string_ref with c-string", ra, b.c_str(), c); HIT("string ? c-string"); }
			if(a.size() != b.size() && c == -1 && a.size() < b.size() && b.compare(0, a.size(), a) == 0) HIT("string prefix");
			Hash h; h.add(a.data(), a.size()); h.add(b.data(), b.size()); state(h.h);
		}
		for(int i{0}; i < 12 && !poisoned; ++i) { // parts of one text, overlapping or not
			const auto period{r.range(1, 5)}; std::string a{odd_text(r, r.range(2, 60))}; if(r.chance(3, 4)) for(std::size_t k{period}; k < a.size(); ++k) a[k] = a[k - period];
			if(r.chance(1, 3)) a[r.below(a.size())] = odd_text(r, 1)[0];
			const auto s{route_string(r, a)};
			const auto p{r.below(a.size())}, q{r.chance(1, 2) ? std::min(a.size() - 1, p + r.below(4)) : r.below(a.size())}; auto m{r.range(0, a.size() - p)}, n{r.range(0, a.size() - q)}; if(r.chance(1, 2)) m = n = std::min(m, n);
			const auto x{a.substr(p, m)}, y{a.substr(q, n)}; const int c{three(x, y)};
			OP("parts [%zu, +%zu) and [%zu, +%zu) of one text (order %d)", p, m, q, n, c);
			const std::string_view all{s}; const ptl::string_ref rx{s.data() + p, m}, ry{s.data() + q, n};
			both("string_ref of one text", rx, ry, c); both("string with part of itself", s, all.substr(q, n), three(a, y)); both("string with part of itself", s, ry, three(a, y));
			if(p != q && p < q + n && q < p + m) HIT("overlapping parts");
			Hash h; h.add(a.data(), a.size()); h.add(p); h.add(q); h.add(m); h.add(n); state(h.h);
		}
	}
	// ordered by key, equal by key and tag: equivalent elements need not be equal
	struct Keyed { int key, tag; friend bool operator==(const Keyed & a, const Keyed & b) noexcept { return a.key == b.key && a.tag == b.tag; } friend bool operator!=(const Keyed & a, const Keyed & b) noexcept { return !(a == b); } friend bool operator<(const Keyed & a, const Keyed & b) noexcept { return a.key < b.key; } friend bool operator>(const Keyed & a, const Keyed & b) noexcept { return b < a; } friend bool operator<=(const Keyed & a, const Keyed & b) noexcept { return !(b < a); } friend bool operator>=(const Keyed & a, const Keyed & b) noexcept { return !(a < b); } };
	Keyed keyed(int m) { return {m / 2, m % 2}; }
	M keys(M m) { for(auto & x : m) x /= 2; return m; }
	void equivalent(Rng & r) {
		for(int i{0}; i < 12 && !poisoned; ++i) {
			{ const auto a{model(r, r.below(6))}; const auto b{relative(r, a, 6, false)}; OP("vector<keyed> %s ? %s", show(a).c_str(), show(b).c_str());
				const auto c{three(keys(a), keys(b))}; if(c == 0 && a != b) HIT("equivalent, but not equal");
				ptl::vector<Keyed> x, y; for(auto v : a) x.push_back(keyed(v)); for(auto v : b) y.push_back(keyed(v));
				both("vector", x, y, c, a == b); seen("vector", "keyed", a, b); }
			{ const auto a{model(r, 3)}; const auto b{relative(r, a, 3, true)}; OP("3 keyed elements %s ? %s", show(a).c_str(), show(b).c_str());
				const auto c{three(keys(a), keys(b))};
				both("array", ptl::array<Keyed, 3>{keyed(a[0]), keyed(a[1]), keyed(a[2])}, ptl::array<Keyed, 3>{keyed(b[0]), keyed(b[1]), keyed(b[2])}, c, a == b);
				both("tuple", ptl::tuple<Keyed, Keyed, Keyed>{keyed(a[0]), keyed(a[1]), keyed(a[2])}, ptl::tuple<Keyed, Keyed, Keyed>{keyed(b[0]), keyed(b[1]), keyed(b[2])}, c, a == b);
				const ptl::optional<Keyed> o{keyed(a[0])}, q{keyed(b[0])}; both("optional", o, q, three(a[0] / 2, b[0] / 2), a[0] == b[0]); both("optional with value", o, *q, three(a[0] / 2, b[0] / 2), a[0] == b[0]);
				const ptl::variant<int, Keyed> v{keyed(a[0])}, w{keyed(b[0])}; both("variant", v, w, three(a[0] / 2, b[0] / 2), a[0] == b[0]); }
		}
	}
	void nested(Rng & r) { // comparisons go through the levels
		for(int i{0}; i < 6 && !poisoned; ++i) {
			using VV = ptl::vector<ptl::optional<ptl::vector<int>>>;
			std::vector<std::vector<int>> a(r.below(4)); for(auto & x : a) { x = model(r, r.below(3)); x.insert(x.begin(), r.chance(1, 4) ? 0 : 1); if(!x[0]) x.resize(1); }
			auto b{a};
			if(!b.empty() && r.chance(2, 3)) { auto & x{b[r.below(b.size())]}; x = model(r, r.below(3)); x.insert(x.begin(), 1); } else if(r.chance(1, 2)) b.push_back({0});
			const int c{a < b ? -1 : a == b ? 0 : 1};
			OP("nested, order %d", c);
			auto make{[&](const std::vector<std::vector<int>> & m) { return route_vector<ptl::optional<ptl::vector<int>>>(r, m.size(), [&](std::size_t j) { ptl::optional<ptl::vector<int>> o; if(m[j][0]) o = route_vector<int>(r, m[j].size() - 1, [&](std::size_t k) { return m[j][k + 1]; }); return o; }); }};
			VV x{make(a)}, y{make(b)};
			both("nested vector", x, y, c); HIT("nested pairs");
			Hash h; for(auto & v : a) { for(int k : v) h.add(k); h.add(99); } h.add(98); for(auto & v : b) { for(int k : v) h.add(k); h.add(99); } state(h.h);
		}
	}
	SCENARIO("compare equivalent elements", "C12", equivalent, 1); REQUIRE("C12", "equivalent, but not equal");
	SCENARIO("compare vector<short>", "C12", vectors<short>, 1); SCENARIO("compare vector<enum>", "C12", vectors<Color>, 1); SCENARIO("compare vector<pointer>", "C12", vectors<const int *>, 1); SCENARIO("compare vector<unsigned long long>", "C12", vectors<unsigned long long>, 1);
	SCENARIO("compare array<unsigned char>", "C12", arrays<unsigned char>, 1); SCENARIO("compare array<float>", "C12", arrays<float>, 1); SCENARIO("compare array<enum>", "C12", arrays<Color>, 1); SCENARIO("compare array<unsigned long long>", "C12", arrays<unsigned long long>, 1); SCENARIO("compare array<descending>", "C12", arrays<Back>, 1);
	SCENARIO("compare optional<float>", "C12", optionals<float>, 1); SCENARIO("compare optional<enum>", "C12", optionals<Color>, 1); SCENARIO("compare optional<pointer>", "C12", optionals<const int *>, 1); SCENARIO("compare optional<unsigned long long>", "C12", optionals<unsigned long long>, 1); SCENARIO("compare optional<signed char>", "C12", optionals<signed char>, 1);
	SCENARIO("compare vector<int>", "C12", vectors<int>, 1); SCENARIO("compare vector<double>", "C12", vectors<double>, 1); SCENARIO("compare vector<signed char>", "C12", vectors<signed char>, 1); SCENARIO("compare vector<unsigned char>", "C12", vectors<unsigned char>, 1);
	SCENARIO("compare vector<padded>", "C12", vectors<Odd>, 1); SCENARIO("compare vector<descending>", "C12", vectors<Back>, 1); SCENARIO("compare vector<ptl::string>", "C12", vectors<ptl::string>, 1); SCENARIO("compare vector<tracked>", "C12", vectors<Tr<0>>, 1);
	SCENARIO("compare array<int>", "C12", arrays<int>, 1); SCENARIO("compare array<signed char>", "C12", arrays<signed char>, 1); SCENARIO("compare array<padded>", "C12", arrays<Odd>, 1); SCENARIO("compare array<double>", "C12", arrays<double>, 1); SCENARIO("compare array<std::string>", "C12", arrays<std::string>, 1);
	SCENARIO("compare optional<int>", "C12", optionals<int>, 1); SCENARIO("compare optional<unsigned>", "C12", optionals<unsigned>, 1); SCENARIO("compare optional<double>", "C12", optionals<double>, 1); SCENARIO("compare optional<descending>", "C12", optionals<Back>, 1); SCENARIO("compare optional<ptl::string>", "C12", optionals<ptl::string>, 1); SCENARIO("compare optional<padded>", "C12", optionals<Odd>, 1); SCENARIO("compare optional<tracked>", "C12", optionals<Tr<0>>, 1);
	SCENARIO("compare variants", "C12", variants, 4); SCENARIO("compare tuples", "C12", tuples, 3); SCENARIO("compare strings", "C12", strings, 6); SCENARIO("compare nested", "C12", nested, 2);
	REQUIRE("C12", "equal pairs"); REQUIRE("C12", "lesser pairs"); REQUIRE("C12", "greater pairs"); REQUIRE("C12", "optional ? value"); REQUIRE("C12", "empty ? empty"); REQUIRE("C12", "empty ? engaged"); REQUIRE("C12", "different alternatives"); REQUIRE("C12", "string ? c-string"); REQUIRE("C12", "string prefix"); REQUIRE("C12", "nested pairs"); REQUIRE("C12", "overlapping parts");
}
