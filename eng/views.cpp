// array_ref and string_ref designate exactly the range they were given: addresses, lengths, parts, writes, no copies, no allocations.
#include <array>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <sys/mman.h>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include "../rt/elems.hpp"
#include "../rt/out.hpp"

namespace {
	using namespace mon;
	struct Three { char c[3]; bool operator==(const Three & o) const { return std::memcmp(c, o.c, 3) == 0; } };
	struct Base { int b; }; struct Derived : Base { int d; }; struct Same : Base { };
	template<typename T> struct Kind { static const char * name() { return "tracked"; } static T make(int i) { return T{i}; } };
	template<> struct Kind<int> { static const char * name() { return "int"; } static int make(int i) { return i; } };
	template<> struct Kind<char> { static const char * name() { return "char"; } static char make(int i) { return static_cast<char>(i); } };
	template<> struct Kind<Three> { static const char * name() { return "3 bytes"; } static Three make(int i) { return {{static_cast<char>(i), static_cast<char>(i >> 8), 'x'}}; } };
	template<> struct Kind<std::string> { static const char * name() { return "std::string"; } static std::string make(int i) { return std::to_string(i) + (i % 2 ? " and something long enough for the heap" : ""); } };
	template<> struct Kind<const char *> { static const char * name() { return "pointer"; } static const char * make(int i) { static const char text[256]{}; return text + i % 256; } };

	std::uint64_t allocs_before; int copies_before;
	void begin_quiet() { allocs_before = heap::allocs; copies_before = Life::n_copied; }
	void quiet(const char * what) { CHECK("C17", "allocates", heap::allocs == allocs_before, "%s allocates memory", what); CHECK("C17", "copies", Life::n_copied == copies_before, "%s copies elements", what); }

	// the view designates [p, p + n)
	template<typename A> void is(const char * what, A a, typename A::pointer p, std::size_t n) {
		if(poisoned) return;
		const A & c{a};
		begin_quiet();
		CHECK("C17", "size", SUT(c.size()) == n && SUT(c.empty()) == (n == 0), "%s: size %zu, expected %zu", what, c.size(), n);
		CHECK("C17", "data", SUT(c.data()) == p && SUT(a.data()) == p, "%s: data() is %td elements off", what, c.data() - p);
		if(poisoned) return;
		CHECK("C17", "begin-end", static_cast<std::size_t>(SUT(c.end() - c.begin())) == n && static_cast<std::size_t>(SUT(a.end() - a.begin())) == n && static_cast<std::size_t>(SUT(c.cend() - c.cbegin())) == n && static_cast<std::size_t>(SUT(c.rend() - c.rbegin())) == n && static_cast<std::size_t>(SUT(a.rend() - a.rbegin())) == n && static_cast<std::size_t>(SUT(c.crend() - c.crbegin())) == n, "%s: a begin/end pair does not span %zu elements", what, n);
		if(n && n < 1000) {
			CHECK("C17", "front-back", &SUT(c.front()) == p && &SUT(c.back()) == p + n - 1 && &SUT(a.front()) == p && &SUT(a.back()) == p + n - 1, "%s: front or back designate other elements", what);
			for(std::size_t i{0}; i < n; ++i) {
				const auto k{static_cast<std::ptrdiff_t>(i)};
				CHECK("C17", "elements", &SUT(c[i]) == p + i && &SUT(c.at(i)) == p + i && &SUT(a[i]) == p + i && &SUT(*(c.begin() + k)) == p + i && &SUT(*(a.begin() + k)) == p + i && &SUT(c.begin()[k]) == p + i && &SUT(*(c.rbegin() + (k))) == p + (n - 1 - i) && &SUT(*(a.crbegin() + k)) == p + (n - 1 - i), "%s: an accessor of element %zu of %zu designates another one", what, i, n);
			}
			std::size_t i{0}; for(auto & x : c) { CHECK("C17", "elements", &x == p + i, "%s: iteration yields another element", what); ++i; } CHECK("C17", "elements", i == n, "%s: iteration yields %zu elements, expected %zu", what, i, n);
		}
		A copy{SUT(A(c))}; A other; SUT(other = c);
		CHECK("C17", "copy", copy.data() == p && copy.size() == n && other.data() == p && other.size() == n, "%s: a copy of the view designates another range", what);
		quiet(what);
		Hash h; h.add(what, std::strlen(what)); h.add(n); h.add(sizeof(*p)); h.add(reinterpret_cast<std::uintptr_t>(p) % 64); state(h.h);
	}
	template<typename T> void parts(Rng & r, ptl::array_ref<T> a, T * p, std::size_t n, int depth) {
		if(poisoned) return;
		const auto k{r.chance(1, 4) ? 0 : r.chance(1, 3) ? n : r.below(n + 1)}; const auto l{r.chance(1, 4) ? n - k : r.below(n - k + 1)};
		OP("parts of %zu at %zu, %zu", n, k, l);
		begin_quiet();
		const auto & c{a};
		const auto f{SUT(c.first(k))}; const auto e{SUT(c.last(k))}; const auto s{SUT(c.subrange(k))}; const auto t{SUT(c.subrange(k, l))};
		quiet("taking a part of an array_ref");
		is("first", f, p, k); is("last", e, p + (n - k), k); is("subrange", s, p + k, n - k); is("subrange with count", t, p + k, l);
		is("the viewed array_ref", a, p, n); // unchanged
		HIT("array parts");
		if(depth) { parts(r, s, p + k, n - k, depth - 1); parts(r, e, p + (n - k), k, depth - 1); }
	}
	template<typename T> void array_refs(Rng & r) {
		using A = ptl::array_ref<T>; using C = ptl::array_ref<const T>; using K = Kind<T>;
		const auto n{r.chance(1, 6) ? 0 : r.below(20)};
		std::vector<T> v; v.reserve(n + r.below(5)); for(std::size_t i{0}; i < n; ++i) v.push_back(K::make(static_cast<int>(i)));
		const std::vector<T> & cv{v};
		OP("array_ref of %zu elements (%s)", n, K::name());
		const auto p{v.data()};
		is("default array_ref", A{}, nullptr, 0); is("default array_ref to const", C{}, nullptr, 0);
		begin_quiet();
		const A a1{SUT(A(p, n))}; const A a2{SUT(A(p, p + n))}; const A a3{SUT(A(v))}; const C c1{SUT(C(p, n))}; const C c2{SUT(C(v))}; const C c3{SUT(C(cv))}; const C c4{SUT(C(a1))}; const A a4{SUT(A(a3))};
		quiet("constructing an array_ref");
		is("array_ref(pointer, size)", a1, p, n); is("array_ref(pointers)", a2, p, n); is("array_ref(std::vector)", a3, p, n); is("array_ref<const>(pointer, size)", c1, p, n); is("array_ref<const>(std::vector)", c2, p, n); is("array_ref<const>(const std::vector)", c3, p, n); is("array_ref<const>(array_ref)", c4, p, n); is("copied array_ref", a4, p, n);
		{ ptl::array_ref d{v}; static_assert(std::is_same_v<decltype(d), A>); is("deduced from std::vector", d, p, n); ptl::array_ref e{cv}; static_assert(std::is_same_v<decltype(e), C>); is("deduced from const std::vector", e, p, n); }
		{ A x; begin_quiet(); SUT(x = a1); SUT(x = A{}); SUT(x = v); quiet("assigning an array_ref"); is("assigned array_ref", x, p, n); C y; y = a1; is("assigned array_ref<const>", y, p, n); }
		HIT("array_ref constructions");
		{ T raw[3]{K::make(1), K::make(2), K::make(3)}; is("array_ref(array)", A{raw}, raw, 3); is("array_ref<const>(array)", C{raw}, raw, 3); const auto & craw{raw}; is("array_ref<const>(const array)", C{craw}, craw, 3); ptl::array_ref d{raw}; is("deduced from array", d, raw, 3); }
		if constexpr(std::is_standard_layout_v<T> && !std::is_same_v<T, Three> && !std::is_pointer_v<T>) { ptl::array<T, 4> b; is("array_ref(ptl::array)", A{b}, b.data(), 4); const auto & cb{b}; is("array_ref<const>(const ptl::array)", C{cb}, cb.data(), 4); ptl::array<T, 0> z; is("array_ref(ptl::array of none)", A{z}, z.data(), 0); }
		{ std::array<T, 2> b{K::make(1), K::make(2)}; is("array_ref(std::array)", A{b}, b.data(), 2); }
		if constexpr(!std::is_same_v<T, Three> && !std::is_pointer_v<T>) { ptl::vector<T> b; const auto m{r.below(6)}; for(std::size_t i{0}; i < m; ++i) b.push_back(K::make(9)); is("array_ref(ptl::vector)", A{b}, b.data(), m); const auto & cb{b}; is("array_ref<const>(const ptl::vector)", C{cb}, cb.data(), m); }
		const auto o{r.below(n + 1)}, l{r.below(n - o + 1)};
		parts<T>(r, A{p + o, l}, p + o, l, 3); parts<const T>(r, C{p + o, l}, p + o, l, 2);
		// writes through the view are writes to the original, and to nothing else
		for(int i{0}; i < 4 && l && !poisoned; ++i) {
			const auto j{r.below(l)}; const int val{1000 + i};
			const T x{K::make(val)}; std::vector<T> want{v};
			A a{p + o, l}; const A & ca{a}; std::size_t at{j};
			switch(r.below(7)) { case 0: ca[j] = x; break; case 1: a.at(j) = x; break; case 2: *(a.begin() + static_cast<std::ptrdiff_t>(j)) = x; break; case 3: ca.front() = x; at = 0; break; case 4: a.back() = x; at = l - 1; break; case 5: ca.data()[j] = x; break; default: *(a.rbegin() + static_cast<std::ptrdiff_t>(j)) = x; at = l - 1 - j; }
			want[o + at] = x;
			CHECK("C17", "write", v == want, "a write through an array_ref did not change exactly the designated element");
			HIT("writes through views");
		}
	}
	void derived(Rng &) { // elements of another size must not be reinterpreted
		OP("conversions");
		CHECK("C17", "derived", (!std::is_constructible_v<ptl::array_ref<Base>, std::vector<Derived> &> && !std::is_constructible_v<ptl::array_ref<const Base>, const std::vector<Derived> &> && !std::is_constructible_v<ptl::array_ref<Base>, Derived(&)[3]> && !std::is_convertible_v<ptl::array_ref<Derived>, ptl::array_ref<Base>>), "an array_ref to Base is made from an array of a derived type");
		CHECK("C17", "const", (!std::is_constructible_v<ptl::array_ref<int>, const std::vector<int> &> && !std::is_convertible_v<ptl::array_ref<const int>, ptl::array_ref<int>> && std::is_convertible_v<ptl::array_ref<int>, ptl::array_ref<const int>>), "an array_ref to mutable elements is made from constant ones");
		int a[2]{1, 2}; int * p[2]{a, a + 1}; is("array_ref to pointers", ptl::array_ref<int * const>{p}, p, 2);
		HIT("conversions"); state(1);
	}
	void huge(Rng & r) { // lengths beyond 32 bits (never touched)
		static char * const mem{static_cast<char *>(mmap(nullptr, std::size_t{1} << 36, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))};
		if(mem == MAP_FAILED) return;
		const std::size_t n{(std::size_t{1} << r.range(31, 35)) + r.below(1000)}; const auto k{r.below(n)}, l{r.below(n - k)};
		OP("views of %zu bytes", n);
		const ptl::array_ref<char> a{mem, n}; is("long array_ref", a, mem, n); is("long first", a.first(k), mem, k); is("long last", a.last(k), mem + (n - k), k); is("long subrange", a.subrange(k), mem + k, n - k); is("long subrange with count", a.subrange(k, l), mem + k, l);
		const auto e{reinterpret_cast<std::uint64_t *>(mem)}; const ptl::array_ref<std::uint64_t> b{e, n / 8}; is("long array_ref of 8 byte elements", b, e, n / 8); is("long last of 8 byte elements", b.last(n / 16), e + (n / 8 - n / 16), n / 16);
		ptl::string_ref s{mem, n}; CHECK("C17", "size", s.size() == n && s.data() == mem && static_cast<std::size_t>(s.end() - s.begin()) == n && std::string_view{s}.size() == n && &s.back() == mem + n - 1, "a long string_ref designates another range");
		const auto t{s.substr(k, l)}; CHECK("C17", "size", t.size() == l && t.data() == mem + k, "substr of a long string_ref designates another range"); s.remove_prefix(k); s.remove_suffix(l); CHECK("C17", "size", s.size() == n - k - l && s.data() == mem + k, "remove_prefix or remove_suffix of a long string_ref designates another range");
		HIT("long views");
	}
	void text_is(const char * what, const ptl::string_ref & s, const char * p, std::size_t n) {
		if(poisoned) return;
		begin_quiet();
		CHECK("C17", "size", SUT(s.size()) == n && SUT(s.empty()) == (n == 0), "%s: size %zu, expected %zu", what, s.size(), n);
		CHECK("C17", "data", (n == 0 && !p) || SUT(s.data()) == p, "%s: data() designates another address", what);
		if(poisoned) return;
		const std::string_view v{SUT(static_cast<std::string_view>(s))};
		CHECK("C17", "string_view", v.size() == n && v.data() == s.data(), "%s: conversion to string_view designates another range", what);
		CHECK("C17", "begin-end", static_cast<std::size_t>(s.end() - s.begin()) == n && static_cast<std::size_t>(s.cend() - s.cbegin()) == n && static_cast<std::size_t>(s.rend() - s.rbegin()) == n && static_cast<std::size_t>(s.crend() - s.crbegin()) == n, "%s: a begin/end pair does not span %zu characters", what, n);
		for(std::size_t i{0}; i < n; ++i) { const auto k{static_cast<std::ptrdiff_t>(i)}; CHECK("C17", "elements", &s[i] == p + i && &s.at(i) == p + i && &*(s.begin() + k) == p + i && &s.cbegin()[k] == p + i && &*(s.rbegin() + k) == p + (n - 1 - i), "%s: an accessor of character %zu of %zu designates another one", what, i, n); }
		if(n) CHECK("C17", "front-back", &s.front() == p && &s.back() == p + n - 1, "%s: front or back designate other characters", what);
		std::size_t i{0}; for(auto & c : s) { CHECK("C17", "elements", &c == p + i, "%s: iteration yields another character", what); ++i; } CHECK("C17", "elements", i == n, "%s: iteration yields %zu characters", what, i);
		const ptl::string_ref copy{s}; ptl::string_ref other; other = s;
		CHECK("C17", "copy", copy.data() == s.data() && copy.size() == n && other.data() == s.data() && other.size() == n, "%s: a copy designates another range", what);
		quiet(what);
		Hash h; h.add(what, std::strlen(what)); h.add(n); if(n) h.add(p, n); state(h.h);
	}
	void texts(Rng & r) {
		using namespace ptl::literals;
		static const char set[]{0, 'a', 'b', -1, ' ', 127};
		const auto n{r.chance(1, 8) ? 0 : r.below(70)};
		std::string s(n, 0); for(auto & c : s) c = set[r.below(6)];
		OP("string_ref to %zu characters", n);
		text_is("default string_ref", ptl::string_ref{}, nullptr, 0);
		begin_quiet();
		const ptl::string_ref a{SUT(ptl::string_ref(s.data(), n))}; const ptl::string_ref b{SUT(ptl::string_ref(std::string_view{s}))}; const ptl::string_ref c{SUT(ptl::string_ref(s.c_str()))};
		quiet("constructing a string_ref");
		text_is("string_ref(pointer, size)", a, s.data(), n); text_is("string_ref(string_view)", b, s.data(), n); text_is("string_ref(c-string)", c, s.data(), std::strlen(s.c_str())); const std::string_view sv{s}; ptl::string_ref as; as = sv; text_is("assigned from string_view", as, s.data(), n); as = s.c_str(); text_is("assigned from c-string", as, s.data(), std::strlen(s.c_str()));
		const ptl::string ps{std::string_view{s}}; text_is("string_ref(ptl::string)", ptl::string_ref{static_cast<std::string_view>(ps)}, n ? ps.data() : nullptr, n);
		{ const auto l{"with\0nul\0"_sr}; CHECK("C17", "literal", l.size() == 9 && std::memcmp(l.data(), "with\0nul\0", 10) == 0, "a literal with embedded NULs designates %zu characters", l.size()); CHECK("C17", "literal", ""_sr.empty() && "x"_sr.size() == 1 && "\0"_sr.size() == 1, "a literal designates another length"); }
		ptl::string_ref v{a}; const char * p{s.data()}; std::size_t m{n};
		for(int i{0}; i < 6 && !poisoned; ++i) {
			const auto k{r.chance(1, 5) ? m : r.below(m + 1)}, l{r.chance(1, 5) ? m - k : r.below(m - k + 1)};
			OP("part of %zu at %zu, %zu", m, k, l);
			begin_quiet();
			const auto x{SUT(v.substr(k))}; const auto y{SUT(v.substr(k, l))}; quiet("substr");
			text_is("substr", x, p + k, m - k); text_is("substr with count", y, p + k, l); text_is("the viewed string_ref", v, p, m);
			const auto d{r.below(m + 1) / (r.chance(1, 2) ? 4 : 1)};
			begin_quiet();
			if(r.chance(1, 2)) { SUT(v.remove_prefix(d)); p += d; } else SUT(v.remove_suffix(d));
			m -= d;
			quiet("remove_prefix/remove_suffix"); text_is("shortened string_ref", v, p, m);
			HIT("text parts");
		}
		text_is("the original string_ref", a, s.data(), n);
		for(int i{0}; i < 4; ++i) written(r, "C17", v, {p, m});
	}
	SCENARIO("array_ref<int>", "C17", array_refs<int>, 1); SCENARIO("array_ref<char>", "C17", array_refs<char>, 1); SCENARIO("array_ref<3 bytes>", "C17", array_refs<Three>, 1); SCENARIO("array_ref<tracked>", "C17", (array_refs<Tr<0, 4, 17>>), 1); SCENARIO("array_ref<std::string>", "C17", array_refs<std::string>, 1); SCENARIO("array_ref<pointer>", "C17", array_refs<const char *>, 1);
	SCENARIO("string_ref", "C17", texts, 3); SCENARIO("view conversions", "C17", derived, 1); SCENARIO("long views", "C17", huge, 1);
	REQUIRE("C17", "array parts"); REQUIRE("C17", "array_ref constructions"); REQUIRE("C17", "writes through views"); REQUIRE("C17", "text parts"); REQUIRE("C17", "conversions");
}
