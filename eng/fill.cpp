// The same programs over differently pre-filled object, heap and stack memory must observe the same; new objects hold their documented values.
#ifdef UNDER_MEMCHECK
#include "../rt/mon.hpp"
#define SUT(...) ([&]() -> decltype(auto) { return __VA_ARGS__; }())
namespace mon::heap { static int fill{-1}; }
#else
#include "../rt/heap.hpp"
#endif
#include "../rt/programs.hpp"

namespace {
	using namespace mon; using programs::See; using str = ptl::string;
	char text[64]; int ints[16];
	struct Setup { Setup() { for(std::size_t i{0}; i < sizeof text; ++i) text[i] = static_cast<char>('A' + i % 26); for(int i{0}; i < 16; ++i) ints[i] = i * 7; world::ctx = {text, sizeof text, ints, 16}; } } setup;

	#ifdef UNDER_MEMCHECK
	constexpr int n_patterns{1};
	int pattern(int, Rng &) { return -1; } // memcheck itself knows which bytes are indeterminate
	#else
	constexpr int n_patterns{5};
	int pattern(int i, Rng & r) { constexpr int p[]{0x00, 0xFF, 0xA5, 0x01}; return i < 4 ? p[i] : static_cast<int>(r.below(256)); }
	#endif
	__attribute__((noinline)) void scribble(int c) { if(c < 0) return; unsigned char buf[1 << 16]; std::memset(buf, c, sizeof buf); asm volatile("" :: "r"(buf) : "memory"); }
	template<typename F> __attribute__((noinline)) See observed(int c, F && f) {
		heap::fill = c; programs::fill = c; world::depth = 0;
		{ void * blocks[40]; std::size_t n{8}; for(auto & b : blocks) { b = std::malloc(n); if(c >= 0) std::memset(b, c, n); asm volatile("" :: "r"(b) : "memory"); n += n / 4 + 8; } for(auto b : blocks) std::free(b); } // recycled blocks
		scribble(c); See o; f(o); heap::fill = -1; programs::fill = -1;
		return o;
	}
	template<typename F> void same(Rng & r, const char * what, F && f) {
		See first; int pf{0};
		for(int i{0}; i < n_patterns && !poisoned; ++i) {
			const auto c{pattern(i, r)}; const auto o{observed(c, f)};
			if(i == 0) { first = o; pf = c; } else CHECK("C26", "differs", o.h == first.h && o.n == first.n, "%s: other results in memory filled with %02x than in memory filled with %02x (%llu observations)", what, c, pf, static_cast<unsigned long long>(o.n));
		}
		Hash h; h.add(first.h); h.add(first.n); state(h.h); HITN("values observed", first.n); HITN("repetitions over other memory", n_patterns);
	}
	void program(Rng & r) {
		const auto w{r.below(programs::count)}; const auto seed{r.next()}; OP("program %s with seed %llx", programs::all[w].name, static_cast<unsigned long long>(seed));
		same(r, programs::all[w].name, [&](See & o) { world::Rng q{seed}; SUT(programs::all[w].run(q, o)); }); HIT("programs");
	}
	void constant(Rng & r) {
		const auto seed{r.next()}; OP("const operations on objects made with seed %llx", static_cast<unsigned long long>(seed));
		same(r, "const operations", [&](See & o) { world::Rng q{seed}; SUT([&] { alignas(programs::Shared) static unsigned char m[sizeof(programs::Shared)]; programs::patterned(m); const auto s{::new(m) programs::Shared{q}}; for(std::size_t i{0}; i < programs::n_looks; ++i) { scribble(programs::fill); programs::look(*s, i, o); } s->~Shared(); return 0; }()); }); HIT("const operations");
	}
	// documented values of objects that were given none
	template<typename T> struct Mem { alignas(T) unsigned char m[sizeof(T)]; explicit Mem(int c) { if(c >= 0) std::memset(m, c, sizeof m); } T * make() { return ::new(m) T; } };
	template<typename T, typename F> void fresh(int c, const char * what, F && is) {
		Mem<T> m{c}; scribble(c); const auto t{SUT(m.make())}; CHECK("C26", "default", is(*t), "a default constructed %s in memory filled with %02x does not have its documented value", what, c & 255);
		const T copy{*t}; T moved{std::move(*t)}; CHECK("C26", "default", is(copy) && is(moved), "a copy of a default constructed %s (memory filled with %02x) does not have its documented value", what, c & 255); t->~T();
		Mem<T> m2{c}; scribble(c); const auto u{SUT(::new(m2.m) T{})}; CHECK("C26", "default", is(*u), "a value-initialised %s in memory filled with %02x does not have its documented value", what, c & 255); u->~T(); HIT("fresh objects");
	}
	template<std::size_t N> void fresh_bits(int c) { fresh<ptl::bitset<N>>(c, "bitset", [](const ptl::bitset<N> & b) { bool z{true}; for(std::size_t i{0}; i < N; ++i) if(b[i]) z = false; return z && b.none() && b.count() == 0 && b == ptl::bitset<N>{}; }); if constexpr(N != 0) fresh<ptl::array<ptl::bitset<N>, 2>>(c, "array of bitset", [](const auto & a) { return a[0].none() && a[1].none(); }); }
	struct Pod { int a; char b; double d; }; struct Init { int v{42}; };
	template<typename T> bool zero(const T & t) { if constexpr(std::is_same_v<T, Pod>) return t.a == 0 && t.b == 0 && t.d == 0; else if constexpr(std::is_same_v<T, Init>) return t.v == 42; else return t == T{}; }
	template<typename T> void grown(Rng & r, int c, const char * what) {
		heap::fill = c; const auto n{r.below(40)}, k{r.below(40)}; const bool room{r.chance(1, 2)}; scribble(c);
		{ ptl::vector<T> v(n); bool ok{v.size() == n}; for(auto & x : v) ok = ok && zero(x); CHECK("C26", "vector(n)", ok, "vector<%s>(%zu) in memory filled with %02x has elements that are not value-initialised", what, n, c & 255); }
		{ ptl::vector<T> v; if(room) v.reserve(50); v.resize(n); bool ok{v.size() == n}; for(auto & x : v) ok = ok && zero(x); if constexpr(!std::is_same_v<T, str>) for(auto & x : v) std::memset(static_cast<void *>(&x), c & 255, sizeof x); /* used slots */ const auto rest{n ? r.below(n) : 0}; if(r.chance(1, 2)) v.clear(); else { v.resize(rest); for(auto & x : v) x = T{}; } v.resize(n + k); ok = ok && v.size() == n + k; for(auto & x : v) ok = ok && zero(x); CHECK("C26", "resize", ok, "resize of a vector<%s> in memory filled with %02x gives elements that are not value-initialised (%zu, %zu)", what, c & 255, n, k); ptl::vector<T> w{v}; ok = true; for(auto & x : w) ok = ok && zero(x); CHECK("C26", "resize", ok, "a copy of value-initialised elements differs"); }
		{ ptl::array<T, 5> a{}; bool ok{true}; for(auto & x : a) ok = ok && zero(x); CHECK("C26", "array{}", ok, "a value-initialised array<%s, 5> has other elements", what); }
		{ ptl::optional<T> o; ptl::vector<ptl::optional<T>> v(3); CHECK("C26", "default", !o && !v[0] && !v[2] && !v[1].has_value(), "a default constructed optional<%s> holds a value", what); o.emplace(); CHECK("C26", "emplace()", zero(*o), "optional<%s>::emplace() does not value-initialise", what); const ptl::optional<T> p{std::in_place}; CHECK("C26", "emplace()", zero(*p), "optional<%s>{in_place} does not value-initialise", what); }
		{ struct Other { int q; }; using V = ptl::variant<T, Other>; Mem<V> m{c}; scribble(c); const auto v{m.make()}; CHECK("C26", "default", v->template holds<T>() && zero(v->template get<T>()), "a default constructed variant does not hold a value-initialised %s", what); v->~V(); }
		heap::fill = -1; HIT("value-initialised elements"); Hash h; h.add(n); h.add(k); h.add(room); h.add(what, 3); h.add(static_cast<std::uint64_t>(c)); state(h.h);
	}
	void defaults(Rng & r) {
		const auto c{pattern(static_cast<int>(r.below(n_patterns)), r)}; OP("defaults in memory filled with %02x", c & 255);
		const auto is_empty{[](const auto & x) { return x.empty() && x.size() == 0 && x.begin() == x.end(); }};
		fresh<str>(c, "string", [&](const str & s) { return is_empty(s) && *s.c_str() == 0 && s == "" && s.capacity() >= s.size(); });
		fresh<ptl::vector<int>>(c, "vector", [&](const auto & v) { return is_empty(v) && v.capacity() >= v.size(); }); fresh<ptl::vector<str>>(c, "vector", is_empty); fresh<ptl::optional<str>>(c, "optional", [](const auto & o) { return !o && !o.has_value() && o == std::nullopt && o == ptl::optional<str>{}; }); fresh<ptl::optional<char>>(c, "optional", [](const auto & o) { return !o && !o.has_value(); });
		fresh<ptl::variant<int, str>>(c, "variant", [](const auto & v) { return v.template holds<int>() && !v.template holds<str>() && v.template get<int>() == 0; }); fresh<ptl::variant<str, int>>(c, "variant", [](const auto & v) { return v.template holds<str>() && v.template get<str>() == ""; }); fresh<ptl::variant<char, int, str>>(c, "variant", [](const auto & v) { return v.template holds<char>() && v.template get<char>() == 0; });
		fresh<ptl::optional_ref<int>>(c, "optional_ref", [](const auto & o) { return !o && !o.has_value(); }); fresh<ptl::string_ref>(c, "string_ref", is_empty); fresh<ptl::array_ref<int>>(c, "array_ref", is_empty); fresh<ptl::array_ref<const str>>(c, "array_ref", is_empty); fresh<ptl::array<str, 3>>(c, "array of string", [](const auto & a) { return a[0] == "" && a[1] == "" && a[2] == ""; });
		fresh_bits<0>(c); fresh_bits<1>(c); fresh_bits<7>(c); fresh_bits<8>(c); fresh_bits<9>(c); fresh_bits<63>(c); fresh_bits<64>(c); fresh_bits<65>(c); fresh_bits<300>(c);
		grown<int>(r, c, "int"); grown<char>(r, c, "char"); grown<double>(r, c, "double"); grown<void *>(r, c, "pointer"); grown<Pod>(r, c, "Pod"); grown<Init>(r, c, "Init"); grown<str>(r, c, "string");
		{ heap::fill = c; const auto n{r.below(80)}, k{r.below(80)}; str s(n, 'x'); s.resize(n + k); bool ok{s.size() == n + k && *(s.data() + s.size()) == 0}; for(std::size_t i{0}; i < n + k; ++i) ok = ok && s[i] == (i < n ? 'x' : 0); CHECK("C26", "resize", ok, "resize of a string from %zu to %zu in memory filled with %02x gives other characters", n, n + k, c & 255); heap::fill = -1; }
		#ifdef UNDER_MEMCHECK
		(void)c;
		#endif
	}
	SCENARIO("program", "C26", program, 6); SCENARIO("const operations", "C26", constant, 2); SCENARIO("defaults", "C26", defaults, 1);
	REQUIRE("C26", "programs"); REQUIRE("C26", "const operations"); REQUIRE("C26", "fresh objects"); REQUIRE("C26", "value-initialised elements");
}
