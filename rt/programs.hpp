// Small deterministic programs over every operation of every template; each returns a hash of everything it could observe.
// The same seed must give the same hash in any thread, over any previous memory contents, at any time.
#pragma once
#include <istream>
#include <list>
#include <ostream>
#include <sstream>
#include "modapi.hpp"
#ifdef UNDER_MEMCHECK
#include <valgrind/memcheck.h>
#endif
namespace programs {
	using world::Rng;
	inline thread_local int fill{-1}; // >= 0: what object storage holds before and after an object lives in it
	template<typename M> void patterned(M & m) { if(fill >= 0) std::memset(&m, fill, sizeof m); }
	struct See { // what was observed
		std::uint64_t h{0xcbf29ce484222325ull}; std::uint64_t n{0};
		void raw(std::uint64_t x) noexcept {
			#ifdef UNDER_MEMCHECK
			VALGRIND_CHECK_VALUE_IS_DEFINED(x);
			#endif
			++n; h = Rng::mix(h ^ x) + 0x2545F4914F6CDD1Dull; }
		void text(const char * p, std::size_t k) noexcept { raw(k); std::uint64_t w{0}; for(std::size_t i{0}; i < k; ++i) { w = w * 131 + static_cast<unsigned char>(p[i]); } raw(w); }
		template<typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>> See & operator<<(T t) { raw(static_cast<std::uint64_t>(t)); return *this; }
		See & operator<<(const ptl::string & s) { text(s.data(), s.size()); raw(static_cast<unsigned char>(s.data()[s.size()])); raw(s.empty()); raw(s.capacity() >= s.size()); return *this; }
		See & operator<<(std::string_view s) { text(s.data(), s.size()); return *this; }
		See & operator<<(const ptl::string_ref & s) { text(s.data(), s.size()); return *this; }
		template<typename T> See & operator<<(const ptl::vector<T> & v) { raw(v.size()); raw(v.capacity() >= v.size()); for(auto & x : v) *this << x; return *this; }
		template<typename T> See & operator<<(const ptl::array_ref<T> & v) { raw(v.size()); for(auto & x : v) *this << x; return *this; }
		template<typename T, std::size_t N> See & operator<<(const ptl::array<T, N> & v) { for(auto & x : v) *this << x; return *this; }
		template<std::size_t N, typename Tag> See & operator<<(const ptl::bitset<N, Tag> & b) { for(std::size_t i{0}; i < N; ++i) raw(b[i]); raw(b.count()); raw(b.all() | b.any() << 1 | b.none() << 2); return *this; }
		template<typename T> See & operator<<(const ptl::optional<T> & o) { raw(o.has_value()); if(o) *this << *o; return *this; }
		template<typename T> See & operator<<(const ptl::optional_ref<T> & o) { raw(o.has_value()); if(o) *this << *o; return *this; }
		template<typename... T> See & operator<<(const ptl::variant<T...> & v) { v.visit([&](const auto & x) { *this << x; }); raw((v.template holds<T>() + ...)); return *this; }
		template<typename... T> See & operator<<(const ptl::tuple<T...> & t) { each(t, std::index_sequence_for<T...>{}); return *this; }
		template<typename T, std::size_t... I> void each(const T & t, std::index_sequence<I...>) { ((*this << std::decay_t<decltype(t.template get<I>())>(t.template get<I>())), ...); }
		template<typename T> void six(const T & a, const T & b) { raw(static_cast<std::uint64_t>(world::six(a, b))); }
		template<typename T, typename U> void six(const T & a, const U & b) { raw(static_cast<std::uint64_t>((a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5)); }
		template<typename E, typename F> void throws(F && f) { bool t{false}; try { f(); } catch(const E &) { t = true; } raw(t); }
	};
	using str = ptl::string;
	inline str some(Rng & r) { const auto t{world::text(r)}; return str{std::string_view{t}}; }
	template<typename It> struct Input { // single pass
		It at; using iterator_category = std::input_iterator_tag; using value_type = typename std::iterator_traits<It>::value_type; using difference_type = std::ptrdiff_t; using pointer = const value_type *; using reference = const value_type &;
		reference operator*() const { return *at; } Input & operator++() { ++at; return *this; } Input operator++(int) { auto t{*this}; ++at; return t; }
		friend bool operator==(const Input & a, const Input & b) { return a.at == b.at; } friend bool operator!=(const Input & a, const Input & b) { return a.at != b.at; }
	};
	template<typename It> Input(It) -> Input<It>;

	inline void strings(Rng & r, See & o) {
		using namespace ptl::literals;
		str a{some(r)}, b{some(r)}, c; const std::list<char> l(r.below(40), static_cast<char>('a' + r.below(26))); const auto t{world::text(r)}; const std::string_view v{t};
		o << a << b << c;
		o << str(l.begin(), l.end()) << str(Input{l.begin()}, Input{l.end()}) << str{'x', 'y', '\0', 'z'} << str(r.below(50), 'q') << ""_s << "abc\0def"_s << "a text that does not fit inline, certainly"_s;
		o << a + b << a + v << v + a << a + 'c' << 'c' + a << a + "lit" << std::as_const(a).substr(a.size() / 2) << std::as_const(a).substr(a.size() / 3, a.size() / 3) << str{a}.substr(a.size() / 2) << str{a}.substr(a.size() / 3, a.size() / 3);
		a += b; o << a; a += v; o << a; a += 'x'; o << a; a += {'1', '2', '3'}; o << a;
		c.assign({'i', 'l'}); o << c; c.assign(Input{l.begin()}, Input{l.end()}); o << c; c.assign(l.begin(), l.end()); o << c; c.assign(r.below(60), 'f'); o << c; c = v; o << c; c = {'a', 'b'}; o << c; c = b; o << c;
		c.append({'t', 'u'}); o << c; c.append(Input{l.begin()}, Input{l.end()}); o << c; c.append(l.begin(), l.end()); o << c; c.append(3, 'n'); o << c; c.append(v); o << c;
		const auto off{[&](str::iterator i) { return i - c.begin(); }};
		const auto at{[&](str & s) { return s.begin() + static_cast<std::ptrdiff_t>(r.below(s.size() + 1)); }};
		o << off(c.insert(at(c), 'k')) << c; o << off(c.insert(at(c), 5, 'm')) << c; o << off(c.insert(at(c), v)) << c; o << off(c.insert(at(c), {'A', 'B'})) << c; o << off(c.insert(at(c), l.begin(), l.end())) << c; o << off(c.insert(at(c), Input{l.begin()}, Input{l.end()})) << c;
		for(int i{0}; i < 5; ++i) { const auto f{static_cast<std::ptrdiff_t>(r.below(c.size() + 1))}, g{f + static_cast<std::ptrdiff_t>(r.below(c.size() - static_cast<std::size_t>(f) + 1))}; const auto x{c.begin() + f}, y{c.begin() + g};
			switch(i) { case 0: c.replace(x, y, v); break; case 1: c.replace(x, y, {'R', 'S', 'T'}); break; case 2: c.replace(x, y, r.below(30), 'w'); break; case 3: c.replace(x, y, l.begin(), l.end()); break; default: c.replace(x, y, Input{l.begin()}, Input{l.end()}); } o << c; }
		if(!c.empty()) { o << off(c.erase(c.begin())) << c; } if(c.size() > 4) { o << off(c.erase(c.begin() + 1, c.begin() + 3)) << c << c.front() << c.back() << std::as_const(c).front() << std::as_const(c).back() << c[1] << c.at(2); c.front() = 'F'; c.back() = 'B'; o << c; }
		o.throws<std::out_of_range>([&] { (void)c.at(c.size()); }); o.throws<std::out_of_range>([&] { (void)std::as_const(c).at(c.size() + 7); }); o.throws<std::length_error>([&] { c.reserve(c.max_size() + 1); }); o << c;
		o << *c.c_str() << c.max_size(); c.push_back('P'); o << c; c.pop_back(); o << c; c.resize(r.below(70)); o << c; c.resize(r.below(70), 'r'); o << c; c.reserve(r.below(200)); o << c; c.shrink_to_fit(); o << c;
		for(auto i{a.rbegin()}; i != a.rend(); ++i) o << *i; for(auto i{a.crbegin()}; i != a.crend(); ++i) o << *i; for(auto i{a.cbegin()}; i != a.cend(); ++i) o << *i;
		o.six(a, b); o.six(a, v); o.six(v, a); o.six(a, std::string_view{a}); o << std::hash<str>{}(a) << std::hash<str>{}(c); { std::ostringstream s; s << a << '|' << c; o << s.str(); } o << std::string_view{a};
		a.swap(b); o << a << b; swap(a, c); o << a << c; str d{std::move(a)}; o << d << a; a = std::move(d); o << a << d; d = a; o << d; a.clear(); o << a << d;
	}
	struct alignas(64) Wide { int v{7}; friend See & operator<<(See & o, const Wide & w) { o << w.v << (reinterpret_cast<std::uintptr_t>(&w) % 64); return o; } };
	template<typename T, typename G> void vectors_of(Rng & r, See & o, G && gen) {
		using V = ptl::vector<T>;
		std::list<T> l; for(std::size_t i{0}, n{r.below(12)}; i < n; ++i) l.push_back(gen());
		const T x{gen()}, y{gen()}; const auto n{r.below(15)};
		V a(l.begin(), l.end()), b(Input{l.begin()}, Input{l.end()}), c{x, y, x}, d(n), e(n, x), f; o << a << b << c << d << e << f;
		const auto at{[&](V & s) { return s.begin() + static_cast<std::ptrdiff_t>(r.below(s.size() + 1)); }};
		a = {y, x}; o << a; a.assign({x, x, y}); o << a; a.assign(Input{l.begin()}, Input{l.end()}); o << a; a.assign(l.begin(), l.end()); o << a; a.assign(n, y); o << a; a = c; o << a;
		o << a.push_back(x) << a << a.push_back(gen()) << a << a.emplace_back(y) << a << *a.emplace(at(a), x) << a << *a.insert(at(a), y) << a << *a.insert(at(a), gen()) << a; a.insert(at(a), n, x); o << a; a.insert(at(a), {x, y}); o << a; a.insert(at(a), l.begin(), l.end()); o << a; a.insert(at(a), Input{l.begin()}, Input{l.end()}); o << a;
		o << a.front() << a.back() << std::as_const(a).front() << std::as_const(a).back() << a[1] << a.at(1) << std::as_const(a)[1] << std::as_const(a).at(0) << a.max_size() << a.empty() << *a.data();
		o.throws<std::out_of_range>([&] { (void)a.at(a.size()); }); o.throws<std::length_error>([&] { a.reserve(a.max_size() + 1); }); o << a;
		a.erase(a.begin()); o << a; a.erase(a.begin() + 1, a.begin() + 3); o << a; a.pop_back(); o << a; a.resize(r.below(40)); o << a; a.resize(r.below(40), x); o << a; a.reserve(r.below(80)); o << a; a.shrink_to_fit(); o << a;
		for(auto i{a.rbegin()}; i != a.rend(); ++i) o << *i; for(auto i{a.crbegin()}; i != a.crend(); ++i) o << *i; for(auto i{a.cbegin()}; i != a.cend(); ++i) o << *i;
		a.swap(b); o << a << b; swap(a, c); o << a << c; V g{std::move(a)}; o << g << a; a = std::move(g); o << a << g; g = a; V h{g}; o << g << h; a.clear(); o << a << g;
		if constexpr(!std::is_same_v<T, Wide>) { o.six(g, h); o.six(g, b); o.six(c, b); }
	}
	inline void vectors(Rng & r, See & o) { switch(r.below(4)) { case 0: vectors_of<int>(r, o, [&] { return static_cast<int>(r.below(1000)); }); break; case 1: vectors_of<str>(r, o, [&] { return some(r); }); break; case 2: vectors_of<char>(r, o, [&] { return static_cast<char>(r.below(256)); }); break; default: vectors_of<Wide>(r, o, [&] { return Wide{static_cast<int>(r.below(99))}; }); } }
	inline void arrays(Rng & r, See & o) {
		ptl::array<str, 3> a{some(r), some(r), some(r)}, b{some(r), some(r), some(r)}; ptl::array<int, 5> c{1, 2}, d{}; ptl::array<int, 0> z{}, z2{}; ptl::array f{3, 1, 2};
		o << a << b << c << d << z << f << a.size() << z.size() << z.empty() << a.empty() << a.max_size() << c.front() << c.back() << c.at(1) << c[2] << std::as_const(c).front() << std::as_const(a).back() << std::as_const(a).at(2);
		o.throws<std::out_of_range>([&] { (void)c.at(5); }); o.throws<std::out_of_range>([&] { (void)std::as_const(z).at(0); });
		for(auto i{a.rbegin()}; i != a.rend(); ++i) o << *i; for(auto i{c.crbegin()}; i != c.crend(); ++i) o << *i; for(auto i{c.cbegin()}; i != c.cend(); ++i) o << *i;
		o.six(a, b); o.six(c, d); o.six(z, z2); o.six(a, a);
		auto & [x, y, w]{a}; o << x << y << w; auto [p, q, s]{b}; o << p << q << s; o << *a.data();
		c.fill(static_cast<int>(r.below(100))); o << c; a.swap(b); o << a << b; swap(c, d); o << c << d; a = b; o << a; auto e{std::move(a)}; o << e; a = std::move(e); o << a; const auto g{a}; a.fill(some(r)); o << a << g;
		ptl::tuple<char, str, int> t{static_cast<char>(r.below(256)), some(r), static_cast<int>(r.below(1000))}, u{'u', some(r), 5}; o << t << u; o.six(t, u); t.swap(u); o << t << u; swap(t, u); o << t << u; u = std::as_const(t); o << u; o.six(t, u); auto v{std::move(t)}; o << v; t = std::move(v); o << t; { str moved{std::move(t).get<1>()}; o << moved; } const ptl::tuple<char, str, int> k{std::as_const(u)}; o << k << str{k.get<1>()};
	}
	inline void optionals(Rng & r, See & o) {
		using O = ptl::optional<str>; O a, b{some(r)}, c{std::nullopt}, d{std::in_place, std::string_view{"in place, of some length or other"}}; const str s{some(r)}; ptl::optional<int> i, j{4}, k{static_cast<int>(r.below(9))};
		o << a << b << c << d << i << j << k << *b << b->size() << b.value() << std::as_const(b).value() << b.value_or(str{"other"}) << a.value_or(str{"other"}) << i.value_or(8) << O{b}.value_or(s) << O{}.value_or(s);
		o.throws<std::bad_optional_access>([&] { (void)a.value(); }); o.throws<std::bad_optional_access>([&] { (void)O{}.value(); });
		o.six(a, b); o.six(b, d); o.six(a, c); o.six(a, std::nullopt); o.six(b, std::nullopt); o.six(std::nullopt, b); o.six(b, s); o.six(s, b); o.six(a, s); o.six(i, 4); o.six(4, j); o.six(j, k);
		a = s; o << a; a = some(r); o << a; a = b; o << a; c = std::move(a); o << c; a = std::nullopt; o << a; a.emplace(std::string_view{s}); o << a; a.emplace(some(r)); o << a; a.swap(b); o << a << b; b.reset(); swap(a, b); o << a << b; O e{std::move(b)}; o << e; e = d; o << e; *e += "tail"; o << e << d << str{std::move(*e)}; i = 7; i = std::nullopt; i = k; o << i; i.emplace(3); i.swap(j); o << i << j;
	}
	inline void variants(Rng & r, See & o) {
		using V = ptl::variant<int, str, ptl::vector<str>, char>; const str s{some(r)};
		V a, b{s}, c{std::in_place_index<2>, ptl::vector<str>{s, some(r)}}, d{std::in_place_type<char>, 'd'}, e{some(r)}; o << a << b << c << d << e;
		o << a.get<int>() << b.get<str>() << std::as_const(c).get<ptl::vector<str>>() << *d.get_if<char>() << (d.get_if<int>() == nullptr) << (std::as_const(b).get_if<str>() != nullptr) << b.holds<str>() << b.holds<int>() << str{V{b}.get<str>()};
		o.throws<std::bad_variant_access>([&] { (void)a.get<str>(); }); o.throws<std::bad_variant_access>([&] { (void)std::as_const(a).get<char>(); });
		const auto look{[&](V & x) { x.visit([&](int & i) { o << 1 << i; }, [&](str & t) { o << 2 << t; t += "v"; }, [&](ptl::vector<str> & t) { o << 3 << t; }, [&](char & t) { o << 4 << t; }); o << std::as_const(x).visit([](const auto & t) { return sizeof t; }); o << V{x}.visit([](auto && t) { auto u{std::move(t)}; return sizeof u; }); }};
		look(a); look(b); look(c); look(d);
		o.six(a, b); o.six(b, e); o.six(b, b); o.six(c, d); o.six(d, a);
		a = 5; o << a; a = s; o << a; a = std::as_const(b); o << a; a = c; o << a; e = std::move(a); o << e; a = 'c'; o << a; o << a.emplace<str>(std::string_view{s}) << a << a.emplace<2>(ptl::vector<str>{s}) << a << a.emplace<int>(3) << a; a.swap(b); o << a << b; swap(b, c); o << b << c; a.swap(d); o << a << d; V f{std::move(c)}; o << f; f = f.holds<int>() ? V{s} : V{1}; o << f; V g{e}; g = ptl::vector<str>(3, s); o << g << e;
	}
	template<std::size_t N> void bits_of(Rng & r, See & o) {
		using B = ptl::bitset<N>; B a, b{static_cast<std::size_t>(r.next())}, c{static_cast<std::size_t>(r.next())}; o << a << b << c; for(std::size_t i{0}; i < 6 && N; ++i) { c.set(r.below(N)); b.flip(r.below(N)); }
		o << (b & c) << (b | c) << (b ^ c) << ~b << (b << r.below(N + 3)) << (b >> r.below(N + 3)) << (b == c) << (b != c) << std::hash<B>{}(b) << std::hash<B>{}(c) << a.size() << a.max_size() << a.empty();
		a = b; a &= c; o << a; a |= b; o << a; a ^= c; o << a; a <<= r.below(N + 2); o << a; a >>= r.below(N + 2); o << a; a.flip(); o << a; a.set(); o << a; a.reset(); o << a;
		if constexpr(N != 0) { const auto i{r.below(N)}, j{r.below(N)}; a.set(i); a.set(j, r.chance(1, 2)); o << a; a.reset(i); a.flip(j); o << a << a.test(i) << static_cast<bool>(a.at(j)) << static_cast<bool>(std::as_const(a)[i]); a[i] = true; a[j] = b[i]; o << a << ~a[i]; a[i].flip(); o << a; { auto x{a[i]}; auto y{b[j]}; swap(x, y); } o << a << b; a.at(i) = c.at(j); o << a; }
		o.throws<std::out_of_range>([&] { (void)a.test(N); }); o.throws<std::out_of_range>([&] { a.set(N + 3); });
		std::stringstream s; s << b << ' ' << c << "x"; o << s.str(); B x, y; s >> x >> y; o << x << y << static_cast<int>(s.rdstate()); { std::istringstream t{"  0110x"}; t >> x; o << x << static_cast<int>(t.rdstate()) << t.peek(); } { std::istringstream t{"2"}; t >> x; o << static_cast<int>(t.rdstate()); }
		a.swap(b); o << a << b; swap(a, c); o << a << c; using std::swap; std::swap(a, b); o << a << b;
	}
	inline void bitsets(Rng & r, See & o) { switch(r.below(6)) { case 0: bits_of<0>(r, o); break; case 1: bits_of<1>(r, o); break; case 2: bits_of<8>(r, o); break; case 3: bits_of<37>(r, o); break; case 4: bits_of<64>(r, o); break; default: bits_of<200>(r, o); } }
	inline void views(Rng & r, See & o) {
		using namespace ptl::literals;
		const auto t{world::text(r)}; const str s{some(r)}; const std::string_view v{t}; const char z[]{"zero\0terminated"};
		ptl::string_ref a, b{v}, c{s}, d{z}, e{t.c, t.n}, f{"li\0teral"_sr}; o << a << b << c << d << e << f << d.size() << f.size() << c.max_size() << b.empty();
		const auto p{r.below(b.size() + 1)}, q{r.below(b.size() - p + 1)}; o << b.substr(p) << b.substr(p, q); { auto g{b}; g.remove_prefix(p); o << g; g.remove_suffix(q); o << g; } if(!b.empty()) o << b.front() << b.back() << b[0] << b.at(b.size() - 1); o.throws<std::out_of_range>([&] { (void)b.at(b.size()); });
		o.six(b, c); o.six(d, f); o.six(b, e); o << std::hash<ptl::string_ref>{}(b) << std::hash<ptl::string_ref>{}(d) << std::string_view{b}; { std::ostringstream w; w << b << c; o << w.str(); } for(auto i{b.rbegin()}; i != b.rend(); ++i) o << *i; for(auto i{b.cbegin()}; i != b.cend(); ++i) o << *i; a = c; std::swap(a, b); o << a << b << str{a} << str{std::string_view{b}};
		int w[7]; for(auto & x : w) x = static_cast<int>(r.below(100)); std::vector<int> sv(w, w + r.below(8)); ptl::vector<int> pv(sv.begin(), sv.end()); ptl::array<int, 4> pa{1, 2, 3, 4}; const std::array<int, 3> sa{4, 5, 6};
		ptl::array_ref<int> ra{w}, rb{sv}, rc{pv}, rd{pa}, re{w, 4}, rf{w + 1, w + 5}; ptl::array_ref<const int> ka{w}, kb{sa}, kc{pv}, kd{std::as_const(pa)}, ke{ra.data(), ra.size()}; o << ra << rb << rc << rd << re << rf << ka << kb << kc << kd << ke << rb.empty();
		const auto m{r.below(8)}, n{r.below(8 - m)}; o << ra.first(m) << ra.last(m) << ra.subrange(m) << ra.subrange(m, n) << ra.front() << ra.back() << ra[3] << ra.at(2) << ka.at(6); o.throws<std::out_of_range>([&] { (void)ra.at(7); }); for(auto i{ra.rbegin()}; i != ra.rend(); ++i) o << *i; for(auto i{ka.crbegin()}; i != ka.crend(); ++i) o << *i; ra[2] = 77; *rf.begin() = 5; for(auto & x : rd) ++x; o << ra << pa; rb = ra; o << rb;
	}
	inline int twice(int v) { return v * 2; } inline int thrice(int v) noexcept { return v * 3; }
	inline void refs(Rng & r, See & o) {
		int i{static_cast<int>(r.below(50))}, j{i + 3}; ptl::optional<int> po{9}, pe; std::optional<int> so{11}; int * ptr{&i}, * null{nullptr};
		ptl::optional_ref<int> a, b{i}, c{po}, d{pe}, e{so}, f{ptr}, g{null}; ptl::optional_ref<const int> k{i}, kc{std::as_const(po)}; o << a << b << c << d << e << f << g << k << kc << b.value() << a.value_or(5) << b.value_or(5) << static_cast<bool>(b); o.throws<std::bad_optional_access>([&] { (void)a.value(); }); *b = 21; o << i; a = b; a = j; o << *a << i; a = std::nullopt; o << a; std::swap(b, c); o << b << c; const str s{some(r)}; ptl::optional_ref<const str> ks{s}; o << ks->size() << *ks;
		str t{some(r)}; char ch{'q'}; using V = ptl::variant_ref<int, str, const str, const char>; V va{i}, vb{t}, vc{s}, vd{ch}; const auto look{[&](const V & x) { x.visit([&](int & y) { o << 1 << y; ++y; }, [&](str & y) { o << 2 << y; y += "!"; }, [&](const str & y) { o << 3 << y; }, [&](const char & y) { o << 4 << y; }); o << x.holds<int>() << x.holds<const str>() << (x.get_if<str>() != nullptr); }}; look(va); look(vb); look(vc); look(vd); o << va.get<int>() << vb.get<str>() << vc.get<const str>(); o.throws<std::bad_variant_access>([&] { (void)va.get<str>(); }); va = vb; look(va); V ve{va}; va = V{j}; look(va); look(ve); o << t << i << j;
		int calls{0}; auto add{[&calls, k{static_cast<int>(r.below(9))}](int v) { ++calls; return v + k; }}; struct Const { int k; int operator()(int v) const { return v - k; } int operator()(int v) { return v + k; } } con{4}; ptl::function_ref<int(int)> fa{add}, fb{twice}, fc{con}; ptl::function_ref<int(int) const> fd{con}, fe{std::as_const(con)}; ptl::function_ref<int(int) noexcept> fn{thrice}; auto print{[&](const str & x) { o << x; }}; ptl::function_ref<void(const str &)> fs{print}; o << fa(1) << fb(2) << fc(3) << fd(4) << fe(5) << fn(6) << calls; fs(s); fa = fb; o << fa(7); fb = fc; o << fb(1) << calls; auto thrower{[](int) -> int { throw std::out_of_range{"x"}; }}; ptl::function_ref<int(int)> ft{thrower}; o.throws<std::out_of_range>([&] { (void)ft(1); });
	}
	// histories of the values that cross binary boundaries
	template<typename D> void history(Rng & r, See & o) {
		const auto p{world::ops<world::P, D>("")}; alignas(64) static thread_local unsigned char mem[3][1024]; static thread_local char text[1 << 17];
		for(auto & m : mem) { patterned(m); p.gen(m, &r); }
		for(std::size_t q{0}, n{r.below(10) + 4}; q < n; ++q) { const auto a{r.below(3)}, b{(a + 1 + r.below(2)) % 3}; p.mutate(mem[a], mem[b], &r); for(auto & m : mem) { world::Out w{text, sizeof text}; p.dump(m, &w); o.text(text, w.n); } o << p.cmp(mem[a], mem[b]); if(q % 3 == 0) { p.destroy(mem[b]); patterned(mem[b]); if(q % 2) p.copy(mem[b], mem[a]); else { p.move(mem[b], mem[a]); p.destroy(mem[a]); patterned(mem[a]); p.fresh(mem[a]); } } }
		for(auto & m : mem) p.destroy(m);
	}
	struct Program { const char * name; void (*run)(Rng &, See &); };
	inline constexpr Program all[]{
		{"string", strings}, {"vector", vectors}, {"array, tuple", arrays}, {"optional", optionals}, {"variant", variants}, {"bitset", bitsets}, {"array_ref, string_ref", views}, {"optional_ref, variant_ref, function_ref", refs},
		#ifndef PROGRAMS_SMALL
		{"S", history<world::S>}, {"Vec<S>", history<world::Vec<world::S>>}, {"Opt<Vec<S>>", history<world::Opt<world::Vec<world::S>>>}, {"Var<I, S, Vec<I>>", history<world::Var<world::I, world::S, world::Vec<world::I>>>}, {"Arr<S, 3>", history<world::Arr<world::S, 3>>}, {"Tup<C, S, I>", history<world::Tup<world::C, world::S, world::I>>}, {"Bit<37>", history<world::Bit<37>>}, {"Vec<Var<S, I>>", history<world::Vec<world::Var<world::S, world::I>>>},
		#endif
	};
	inline constexpr std::size_t count{sizeof all / sizeof *all};

	// const operations on objects that others may be reading at the same time
	struct Shared {
		str s, t, empty; ptl::vector<str> v, v2; ptl::vector<int> w; ptl::optional<str> o, none; ptl::variant<int, str, ptl::vector<str>> x, y; ptl::array<str, 3> a; ptl::array<int, 4> a4; ptl::bitset<77> b; ptl::tuple<char, str, int> u; std::string backing; ptl::string_ref sr; ptl::array_ref<const int> ar; ptl::optional_ref<const str> orf; ptl::variant_ref<const str, const int> vr; ptl::function_ref<int(int) const> f;
		struct Fun { int k; int operator()(int z) const noexcept { return z ^ k; } } fun;
		explicit Shared(Rng & r) : s{some(r)}, t{some(r)}, v(3 + r.below(4), some(r)), v2{some(r), some(r)}, w(5 + r.below(9), 3), o{some(r)}, x{some(r)}, y{ptl::vector<str>{some(r)}}, a{some(r), some(r), some(r)}, a4{1, 2, 3, 4}, b{static_cast<std::size_t>(r.next())}, u{'c', some(r), 12}, backing(20 + r.below(20), 'k'), sr{std::string_view{backing}}, ar{std::as_const(w)}, orf{s}, vr{std::as_const(t)}, f{fun}, fun{static_cast<int>(r.below(99))} {}
		Shared(const Shared &) =delete;
	};
	constexpr std::size_t n_looks{16};
	inline void look(const Shared & q, std::size_t what, See & o) {
		switch(what) {
			case 0: o << q.s << q.t << q.empty << std::hash<str>{}(q.s) << (q.s + q.t) << q.s.substr(q.s.size() / 2) << *q.s.c_str(); o.six(q.s, q.t); o.six(q.s, std::string_view{q.t}); break;
			case 1: { str c{q.s}; c += q.t; c.append(q.s); o << c; c = q.t; c.push_back('x'); o << c << q.t; c = std::string_view{q.s}; o << c; for(auto i{q.s.rbegin()}; i != q.s.rend(); ++i) o << *i; break; }
			case 2: { std::ostringstream w; w << q.s << q.sr << q.b; o << w.str(); o.throws<std::out_of_range>([&] { (void)q.s.at(q.s.size()); }); break; }
			case 3: o << q.v << q.w << q.v.front() << q.v.back() << q.v.at(1) << q.v[0] << q.v.capacity() << q.v.empty(); o.six(q.v, q.v2); o.throws<std::out_of_range>([&] { (void)q.v.at(99); }); break;
			case 4: { auto c{q.v}; c.insert(c.begin() + 1, q.v2.begin(), q.v2.end()); c.push_back(q.v[0]); c.erase(c.begin()); o << c; c = q.v2; c[0] += "z"; o << c << q.v2; for(auto i{q.w.crbegin()}; i != q.w.crend(); ++i) o << *i; break; }
			case 5: o << q.o << q.none << *q.o << q.o->size() << q.o.value() << q.none.value_or(str{"n"}) << q.o.value_or(str{"n"}); o.six(q.o, q.none); o.six(q.o, q.s); o.six(q.none, std::nullopt); o.throws<std::bad_optional_access>([&] { (void)q.none.value(); }); break;
			case 6: { auto c{q.o}; *c += "mine"; o << c << q.o; c = q.none; o << c; c = q.o; o << c; ptl::optional_ref<const str> r{q.o}; o << r; break; }
			case 7: o << q.x << q.y << q.x.get<str>() << *q.y.get_if<ptl::vector<str>>() << q.x.holds<int>(); o.six(q.x, q.y); o << q.x.visit([](int) { return 1; }, [](const str & z) { return static_cast<int>(z.size()); }, [](const ptl::vector<str> &) { return 3; }); o.throws<std::bad_variant_access>([&] { (void)q.x.get<int>(); }); break;
			case 8: { auto c{q.y}; c.get<ptl::vector<str>>().push_back(q.s); o << c << q.y; c = q.x; o << c; c = q.s; o << c; break; }
			case 9: { o << q.a << q.a4 << q.a[1] << q.a.at(2) << q.a.front() << q.a.back(); auto c{q.a}; c[0] += "c"; c.fill(q.s); o << c << q.a; o.six(q.a, c); auto & [d, e, g]{q.a}; o << d << e << g; break; }
			case 10: { o << q.b << q.b.test(3) << static_cast<bool>(q.b.at(5)) << static_cast<bool>(q.b[7]) << (q.b & ~q.b) << (q.b | (q.b << 3)) << (q.b >> 9) << std::hash<ptl::bitset<77>>{}(q.b) << (q.b == q.b); auto c{q.b}; c.flip(); c ^= q.b; o << c; o.throws<std::out_of_range>([&] { (void)q.b.test(77); }); break; }
			case 11: { o << q.u; ptl::tuple<char, str, int> c{q.u}; o.six(c, q.u); c.get<2>() = 3; o << c << q.u; o.six(c, q.u); break; }
			case 12: { o << q.sr << q.sr.substr(3) << q.sr.substr(2, 5) << q.sr.front() << q.sr.back() << std::hash<ptl::string_ref>{}(q.sr) << std::string_view{q.sr}; o.six(q.sr, ptl::string_ref{q.s}); auto c{q.sr}; c.remove_prefix(1); o << c; for(auto i{q.sr.crbegin()}; i != q.sr.crend(); ++i) o << *i; break; }
			case 13: { o << q.ar << q.ar.first(2) << q.ar.last(2) << q.ar.subrange(1) << q.ar.subrange(1, 2) << q.ar[0] << q.ar.at(1); auto c{q.ar}; o << c; for(auto i{q.ar.rbegin()}; i != q.ar.rend(); ++i) o << *i; break; }
			case 14: { o << q.orf << q.orf.value() << q.orf->size() << q.orf.value_or(str{"x"}); auto c{q.orf}; c = q.t; o << c << q.orf; o << q.vr.holds<const str>() << q.vr.get<const str>() << *q.vr.get_if<const str>(); q.vr.visit([&](const str & z) { o << z; }, [&](const int & z) { o << z; }); auto d{q.vr}; o << d.holds<const int>(); break; }
			default: { o << q.f(5) << q.f(6); auto c{q.f}; o << c(7); c = q.f; o << c(8); break; }
		}
	}
}
