// Values and operations of every template, written once and instantiated for two worlds: P (ptl) and M (the model, on std types).
// The same seed makes the same choices in both worlds, so the model predicts what the library must show.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#ifndef WORLD_MODEL_ONLY
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#endif

namespace world {
	struct Rng { // as mon::Rng
		std::uint64_t s;
		static std::uint64_t mix(std::uint64_t x) noexcept { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
		std::uint64_t next() noexcept { return mix(s += 0x9E3779B97F4A7C15ull); }
		std::size_t below(std::size_t n) noexcept { return n ? static_cast<std::size_t>(next() % n) : 0; }
		bool chance(unsigned num, unsigned den) noexcept { return next() % den < num; }
	};
	struct Out { // what an observer sees of a value
		char * buf; std::size_t cap, n{0}; bool full{false};
		void put(const void * p, std::size_t k) noexcept { if(n + k > cap) { full = true; return; } std::memcpy(buf + n, p, k); n += k; }
		void put(char c) noexcept { put(&c, 1); }
		void num(long long v) noexcept { char t[32]; put(t, static_cast<std::size_t>(std::snprintf(t, sizeof t, "%lld", v))); }
	};
	struct Ctx { const char * text; std::size_t n_text; int * ints; std::size_t n_ints; }; // what views may refer to
	inline Ctx ctx{nullptr, 0, nullptr, 0};
	inline thread_local int depth{0}; // nesting of the value being generated

	// descriptions of types
	struct I; struct C; struct L; struct S; template<typename E> struct Vec; template<typename E> struct Opt; template<typename... E> struct Var; template<typename E, std::size_t N> struct Arr; template<typename... E> struct Tup; template<std::size_t N> struct Bit;
	struct SRef; struct ARef; struct ORef; struct VRef; struct FRef;

	template<typename W, typename D> struct Do;
	template<typename W, typename D> using Type = typename Do<W, D>::T;

	struct M { // model
		static constexpr bool real{false};
		using string = std::string; using view = std::string_view;
		template<typename T> using vector = std::vector<T>; template<typename T> using optional = std::optional<T>; template<typename... T> using variant = std::variant<T...>;
		template<typename T, std::size_t N> using array = std::array<T, N>; template<typename... T> using tuple = std::tuple<T...>; template<std::size_t N> using bits = std::bitset<N>;
	};
	#ifndef WORLD_MODEL_ONLY
	struct P { // ptl
		static constexpr bool real{true};
		using string = ptl::string; using view = std::string_view;
		template<typename T> using vector = ptl::vector<T>; template<typename T> using optional = ptl::optional<T>; template<typename... T> using variant = ptl::variant<T...>;
		template<typename T, std::size_t N> using array = ptl::array<T, N>; template<typename... T> using tuple = ptl::tuple<T...>; template<std::size_t N> using bits = ptl::bitset<N>;
	};
	#endif
	template<typename D> struct Ordered : std::true_type {}; template<std::size_t N> struct Ordered<Bit<N>> : std::false_type {};
	template<typename E> struct Ordered<Vec<E>> : Ordered<E> {}; template<typename E> struct Ordered<Opt<E>> : Ordered<E> {}; template<typename E, std::size_t N> struct Ordered<Arr<E, N>> : Ordered<E> {};
	template<typename... E> struct Ordered<Var<E...>> : std::bool_constant<(Ordered<E>::value && ...)> {}; template<typename... E> struct Ordered<Tup<E...>> : std::bool_constant<(Ordered<E>::value && ...)> {};
	template<typename D> struct IsTup : std::false_type {}; template<typename... E> struct IsTup<Tup<E...>> : std::true_type {};
	template<typename D, typename T> int compare(const T & a, const T & b) { if constexpr(Ordered<D>::value) return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; else return (a == b) | (a != b) << 1; }
	template<typename T> int six(const T & a, const T & b) { return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; }

	// ---------------------------------------------------------------- scalars
	template<typename W, typename X> struct Scalar {
		using T = X;
		static T gen(Rng & r) { return static_cast<T>(r.next() % 2001) - static_cast<T>(1000); }
		static void mutate(T & a, T & b, Rng & r) { switch(r.below(4)) { case 0: a = b; break; case 1: std::swap(a, b); break; case 2: a = static_cast<T>(a ^ static_cast<T>(r.below(64))); break; default: a = gen(r); } }
		static void dump(const T & t, Out & o) { o.num(static_cast<long long>(t)); }
		static int cmp(const T & a, const T & b) { return six(a, b); }
	};
	template<typename W> struct Do<W, I> : Scalar<W, int> {};
	template<typename W> struct Do<W, C> : Scalar<W, char> { static char gen(Rng & r) { return static_cast<char>(r.below(256)); } static void mutate(char & a, char & b, Rng & r) { if(r.chance(1, 2)) a = gen(r); else std::swap(a, b); } };
	template<typename W> struct Do<W, L> : Scalar<W, long long> {};

	// ---------------------------------------------------------------- string
	inline std::size_t length(Rng & r) { switch(r.below(6)) { case 0: return r.below(3); case 1: return 20 + r.below(5); case 2: return 46 + r.below(4); case 3: return r.below(90); default: return r.below(30); } }
	struct Text { char c[96]; std::size_t n; operator std::string_view() const { return {c, n}; } };
	inline Text text(Rng & r) { Text t; t.n = length(r); const auto s{r.next()}; for(std::size_t i{0}; i < t.n; ++i) { const auto k{(s >> (i % 13)) % 37 + i}; t.c[i] = static_cast<char>(k % 11 == 0 ? 0 : k % 17 == 0 ? 128 + k % 128 : 'a' + k % 26); } return t; }
	template<typename W> struct Do<W, S> {
		using T = typename W::string;
		static T gen(Rng & r) { const auto t{text(r)}; return T{std::string_view{t}}; }
		static std::string_view part(const T & s, Rng & r) { const auto p{r.below(s.size() + 1)}; return std::string_view{s.data(), s.size()}.substr(p, r.below(s.size() - p + 1)); }
		static void mutate(T & a, T & b, Rng & r) {
			const auto n{a.size()}; const auto p{r.below(n + 1)}, q{p + r.below(n - p + 1)}; const auto ip{static_cast<std::ptrdiff_t>(p)}, iq{static_cast<std::ptrdiff_t>(q)};
			if(n > 600) { a.clear(); return; }
			switch(r.below(29)) {
				case 0: a = b; break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: a = gen(r); break;
				case 5: a = std::string_view{text(r)}; break;
				case 6: a.push_back(static_cast<char>(r.below(256))); break;
				case 7: if(n) a.pop_back(); break;
				case 8: a.append(std::string_view{text(r)}); break;
				case 9: { const auto k{r.below(40)}; a.append(k, static_cast<char>(r.below(256))); break; }
				case 10: { const auto t{text(r)}; if constexpr(W::real) a.insert(a.begin() + ip, std::string_view{t}); else a.insert(p, std::string_view{t}); break; }
				case 11: { const auto k{r.below(30)}; a.insert(a.begin() + ip, k, 'i'); break; }
				case 12: a.erase(a.begin() + ip, a.begin() + iq); break;
				case 13: { const auto t{text(r)}; a.replace(a.begin() + ip, a.begin() + iq, std::string_view{t}); break; }
				case 14: { const auto k{length(r)}; a.resize(k, static_cast<char>(r.below(256))); break; }
				case 15: { const auto k{length(r)}; a.resize(k); break; }
				case 16: a.clear(); break;
				case 17: { const auto k{r.below(150)}; a.reserve(k); break; }
				case 18: { const auto k{r.below(120)}; if(k > 60) a.reserve(k); if(k % 2) a.resize(r.below(24)); a.shrink_to_fit(); break; }
				case 19: a = a.substr(p, q - p); break;
				case 20: { T t{std::move(a)}; a = std::move(t).substr(p, q - p); break; }
				case 21: { auto v{part(a, r)}; if constexpr(W::real) a.append(v); else a.append(T{v}); break; }
				case 22: { auto v{part(a, r)}; if constexpr(W::real) a.insert(a.begin() + ip, v); else a.insert(p, T{v}); break; }
				case 23: { auto v{part(a, r)}; if constexpr(W::real) a.assign(v); else a = T{v}; break; }
				case 24: { auto v{part(b, r)}; a += v; break; }
				case 25: { const auto k{length(r)}; a.assign(k, 'f'); break; }
				case 26: a = a + b; break;
				case 27: { const T c{b}; T d{c}; d.append(std::string_view{"tail"}); a = c; break; }
				default: { T & x{a}; a = x; break; }
			}
		}
		static void dump(const T & s, Out & o) { o.put('"'); o.num(static_cast<long long>(s.size())); o.put(':'); for(std::size_t i{0}; i < s.size(); ++i) o.put(s[i]); if(s.data()[s.size()]) o.put("(no terminator)", 15); if(static_cast<std::size_t>(s.end() - s.begin()) != s.size()) o.put("(end)", 5); o.put('"'); }
		static int cmp(const T & a, const T & b) { return six(a, b); }
	};
	// ---------------------------------------------------------------- vector
	template<typename W, typename E> struct Do<W, Vec<E>> {
		using F = Do<W, E>; using V = typename F::T; using T = typename W::template vector<V>;
		static T gen(Rng & r) { T t; ++depth; const auto n{r.below(depth > 1 ? 4 : 14)}; if(r.chance(1, 3)) t.reserve(n); for(std::size_t i{0}; i < n; ++i) t.push_back(F::gen(r)); --depth; return t; }
		static void mutate(T & a, T & b, Rng & r) {
			const auto n{a.size()}; const auto p{r.below(n + 1)}, q{p + r.below(n - p + 1)}; const auto ip{static_cast<std::ptrdiff_t>(p)}, iq{static_cast<std::ptrdiff_t>(q)};
			if(n > 60) { a.clear(); return; }
			switch(r.below(44)) {
				case 0: a = b; break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: a = gen(r); break;
				case 5: a.push_back(F::gen(r)); break;
				case 6: { const V v{F::gen(r)}; a.push_back(v); break; }
				case 7: if(n) { const auto k{r.below(n)}; if constexpr(W::real) a.push_back(a[k]); else { V v{a[k]}; a.push_back(v); } } break;
				case 8: a.emplace(a.begin() + ip, F::gen(r)); break;
				case 9: a.insert(a.begin() + ip, F::gen(r)); break;
				case 10: if(n) { const auto k{r.below(n)}; const V v{a[k]}; if constexpr(W::real) a.insert(a.begin() + ip, a[k]); else a.insert(a.begin() + ip, v); } break;
				case 11: { const V v{F::gen(r)}; const auto k{r.below(6)}; a.insert(a.begin() + ip, k, v); break; }
				case 12: { const T c{b}; if(c.size() < 20) a.insert(a.begin() + ip, c.begin(), c.end()); break; }
				case 13: if(p != q) a.erase(a.begin() + ip, a.begin() + iq); break;
				case 14: if(p != n) a.erase(a.begin() + ip); break;
				case 15: if(n) a.pop_back(); break;
				case 16: { const auto k{r.below(20)}; a.resize(k); break; }
				case 17: { const V v{F::gen(r)}; const auto k{r.below(20)}; a.resize(k, v); break; }
				case 18: a.clear(); break;
				case 19: a.reserve(r.below(40)); break;
				case 20: a.shrink_to_fit(); break;
				case 21: { const V v{F::gen(r)}; const auto k{r.below(16)}; a.assign(k, v); break; }
				case 22: if constexpr(W::real) a.assign(a.begin() + ip, a.begin() + iq); else { T c(a.begin() + ip, a.begin() + iq); a = c; } break;
				case 23: { const T c(a.begin() + ip, a.begin() + iq); T d{c}; if(!d.empty()) d.pop_back(); b = c; break; }
				case 24: std::reverse(a.begin() + ip, a.end()); if(n) { const auto k{r.below(n)}; using std::swap; swap(a[k], a[n - 1]); } break;
				case 25: std::rotate(a.begin(), a.begin() + ip, a.end()); break;
				case 26: if constexpr(Ordered<E>::value) std::sort(a.begin() + ip, a.end()); if(n) { const V v{a[r.below(n)]}; V w{v}; ++depth; V x{F::gen(r)}; F::mutate(w, x, r); --depth; a[n - 1] = std::move(w); a.push_back(v); } break;
				default: if(n) { const auto k{r.below(n)}; ++depth; if(!b.empty()) F::mutate(a[k], b[r.below(b.size())], r); else { V v{F::gen(r)}; F::mutate(a[k], v, r); } --depth; }
			}
		}
		static void dump(const T & t, Out & o) { o.put('['); for(std::size_t i{0}; i < t.size(); ++i) { F::dump(t.data()[i], o); o.put(','); } std::size_t n{0}; for(auto & x : t) { (void)x; ++n; } if(n != t.size() || t.empty() != (n == 0)) o.put("(end)", 5); o.put(']'); }
		static int cmp(const T & a, const T & b) { return compare<Vec<E>>(a, b); }
	};
	// ---------------------------------------------------------------- optional
	template<typename W, typename E> struct Do<W, Opt<E>> {
		using F = Do<W, E>; using V = typename F::T; using T = typename W::template optional<V>;
		static T gen(Rng & r) { T t; ++depth; if(!r.chance(1, 4)) { if(r.chance(1, 2)) t = F::gen(r); else t.emplace(F::gen(r)); } --depth; return t; }
		static void mutate(T & a, T & b, Rng & r) {
			switch(r.below(21)) {
				case 0: a = b; break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: a = F::gen(r); break;
				case 5: { const V v{F::gen(r)}; a = v; break; }
				case 6: a.emplace(F::gen(r)); break;
				case 7: a.reset(); break;
				case 8: a = std::nullopt; break;
				case 9: if(a) a = *a; break;
				case 10: { const T c{a}; T d{c}; if(d) { V v{F::gen(r)}; F::mutate(*d, v, r); } b = c; break; }
				case 11: { T c{std::move(a)}; a = std::nullopt; b.swap(c); break; }
				default: if(a) { ++depth; if(b) F::mutate(*a, *b, r); else { V v{F::gen(r)}; F::mutate(*a, v, r); } --depth; }
			}
		}
		static void dump(const T & t, Out & o) { if(t.has_value() != static_cast<bool>(t)) o.put("(bool)", 6); if(t) { o.put('!'); F::dump(*t, o); } else o.put('~'); }
		static int cmp(const T & a, const T & b) { return compare<Opt<E>>(a, b) | (a == std::nullopt) << 6; }
	};
	// ---------------------------------------------------------------- variant
	template<typename W, typename... E> struct Do<W, Var<E...>> {
		using T = typename W::template variant<Type<W, E>...>;
		static constexpr std::size_t N{sizeof...(E)};
		template<typename G> static void each(G && g) { std::size_t i{0}; (g(i++, static_cast<Do<W, E> *>(nullptr)), ...); }
		template<typename X> static X * at(T & t) { if constexpr(W::real) return t.template get_if<X>(); else return std::get_if<X>(&t); }
		template<typename X> static const X * at(const T & t) { if constexpr(W::real) return t.template get_if<X>(); else return std::get_if<X>(&t); }
		template<typename X, typename A> static void emplace(T & t, A && a) {
			#ifdef WORLD_PUBLISHED // its emplace does not compile for these types
			t = X(std::forward<A>(a));
			#else
			t.template emplace<X>(std::forward<A>(a));
			#endif
		}
		static T gen(Rng & r) { T t; ++depth; const auto k{r.below(N + 1)}; each([&](std::size_t i, auto * f) { if(i == k) { using F = std::remove_pointer_t<decltype(f)>; if(r.chance(1, 2)) t = F::gen(r); else emplace<typename F::T>(t, F::gen(r)); } }); --depth; return t; }
		static void mutate(T & a, T & b, Rng & r) {
			const auto k{r.below(N)};
			switch(r.below(20)) {
				case 0: a = b; break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: a = gen(r); break;
				case 5: each([&](std::size_t i, auto * f) { if(i == k) { using F = std::remove_pointer_t<decltype(f)>; a = F::gen(r); } }); break;
				case 6: each([&](std::size_t i, auto * f) { if(i == k) { using F = std::remove_pointer_t<decltype(f)>; const typename F::T v{F::gen(r)}; a = v; } }); break;
				case 7: each([&](std::size_t i, auto * f) { if(i == k) { using F = std::remove_pointer_t<decltype(f)>; emplace<typename F::T>(a, F::gen(r)); } }); break;
				case 8: { const T c{a}; T d{c}; d = gen(r); b = c; break; }
				case 9: { T c{std::move(a)}; a = gen(r); b.swap(c); break; }
				case 10: { T & x{a}; a = x; break; }
				default: ++depth; { bool done{false}; each([&](std::size_t, auto * f) { using F = std::remove_pointer_t<decltype(f)>; using X = typename F::T; if(done) return; if(auto p{at<X>(a)}) { done = true; if(auto q{at<X>(b)}) F::mutate(*p, *q, r); else { X v{F::gen(r)}; F::mutate(*p, v, r); } } }); } --depth;
			}
		}
		static void dump(const T & t, Out & o) {
			std::size_t found{0};
			each([&](std::size_t i, auto * f) { using F = std::remove_pointer_t<decltype(f)>; if(auto p{at<typename F::T>(t)}) { ++found; o.put('<'); o.num(static_cast<long long>(i)); o.put(':'); F::dump(*p, o); o.put('>'); } });
			if(found != 1) o.put("(not one alternative)", 21);
		}
		static int cmp(const T & a, const T & b) { return compare<Var<E...>>(a, b); }
	};
	// ---------------------------------------------------------------- array, tuple
	template<typename W, typename E, std::size_t N> struct Do<W, Arr<E, N>> {
		using F = Do<W, E>; using V = typename F::T; using T = typename W::template array<V, N>;
		static T gen(Rng & r) { T t{}; ++depth; for(std::size_t i{0}; i < N; ++i) if(!r.chance(1, 5)) t[i] = F::gen(r); --depth; return t; }
		static void mutate(T & a, T & b, Rng & r) {
			switch(r.below(10)) {
				case 0: a = b; break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: { const V v{F::gen(r)}; a.fill(v); break; }
				case 5: { const T c{a}; T d{c}; if(N) d[0] = F::gen(r); b = c; break; }
				default: if constexpr(N) { const auto i{r.below(N)}, j{r.below(N)}; ++depth; F::mutate(a[i], b[j], r); --depth; }
			}
		}
		static void dump(const T & t, Out & o) { o.put('('); for(auto & x : t) { F::dump(x, o); o.put(';'); } o.put(')'); }
		static int cmp(const T & a, const T & b) { return compare<Arr<E, N>>(a, b); }
	};
	template<typename W, typename... E> struct Do<W, Tup<E...>> {
		using T = typename W::template tuple<Type<W, E>...>;
		static constexpr std::size_t N{sizeof...(E)};
		template<std::size_t J, typename X> static decltype(auto) get(X & t) { if constexpr(W::real) return t.template get<J>(); else return std::get<J>(t); }
		static T gen(Rng & r) { ++depth; T t{Do<W, E>::gen(r)...}; --depth; return t; }
		template<std::size_t... J> static void inner(T & a, T & b, std::size_t k, Rng & r, std::index_sequence<J...>) { ((k == J ? one<J, E>(a, b, r) : void()), ...); }
		template<std::size_t J, typename X> static void one(T & a, T & b, Rng & r) { // through aligned copies: members of a tuple are packed
			using V = Type<W, X>; V x{get<J>(a)}, y{get<J>(b)}; Do<W, X>::mutate(x, y, r); get<J>(a) = x; get<J>(b) = std::move(y);
		}
		static void mutate(T & a, T & b, Rng & r) {
			switch(r.below(8)) {
				case 0: a = std::as_const(b); break;
				case 1: a = std::move(b); b = gen(r); break;
				case 2: a.swap(b); break;
				case 3: { using std::swap; swap(a, b); break; }
				case 4: { const T c{std::as_const(a)}; T d{c}; d = gen(r); b = c; break; }
				default: ++depth; inner(a, b, r.below(N), r, std::index_sequence_for<E...>{}); --depth;
			}
		}
		template<std::size_t... J> static void show(const T & t, Out & o, std::index_sequence<J...>) { ((member<E>(get<J>(t), o)), ...); }
		template<typename X> static void member(const Type<W, X> & v, Out & o) { Do<W, X>::dump(v, o); o.put('/'); }
		static void dump(const T & t, Out & o) { o.put('{'); show(t, o, std::index_sequence_for<E...>{}); o.put('}'); }
		static int cmp(const T & a, const T & b) { return compare<Tup<E...>>(a, b); }
	};
	// ---------------------------------------------------------------- bitset
	template<typename W, std::size_t N> struct Do<W, Bit<N>> {
		using T = typename W::template bits<N>;
		static T gen(Rng & r) { T t{static_cast<std::size_t>(r.next())}; const auto k{r.below(5)}; for(std::size_t i{0}; i < k && N; ++i) t.set(r.below(N)); return t; }
		static void mutate(T & a, T & b, Rng & r) {
			const auto i{r.below(N ? N : 1)}; const auto s{r.below(N + 4)};
			switch(r.below(16)) {
				case 0: a = b; break; case 1: std::swap(a, b); break; case 2: a &= b; break; case 3: a |= b; break; case 4: a ^= b; break; case 5: a = ~a; break; case 6: a <<= s; break; case 7: a >>= s; break;
				case 8: a.set(); break; case 9: a.reset(); break; case 10: a.flip(); break;
				case 11: if(N) a.set(i, r.chance(1, 2)); break; case 12: if(N) a.reset(i); break; case 13: if(N) a.flip(i); break;
				case 14: a = (a & b) | (a << s); break;
				default: a = gen(r);
			}
		}
		static void dump(const T & t, Out & o) { o.put('b'); for(std::size_t i{0}; i < N; ++i) o.put(t[i] ? '1' : '0'); o.num(static_cast<long long>(t.count())); if(t.all()) o.put('A'); if(t.any()) o.put('a'); if(t.none()) o.put('n'); }
		static int cmp(const T & a, const T & b) { return (a == b) | (a != b) << 1; }
	};
	// ---------------------------------------------------------------- views and references onto ctx
	struct MView { std::size_t first, n; };
	template<typename W> struct View0 { using T = MView; };
	template<typename W, typename R, bool Str> struct AnyView { // string_ref / array_ref<int>; the model is a pair of positions
		static std::size_t total() { return Str ? ctx.n_text : ctx.n_ints; }
		using T = R;
		static T make(std::size_t f, std::size_t n) { if constexpr(!W::real) return {f, n}; else if constexpr(Str) return T{ctx.text + f, n}; else return T{ctx.ints + f, n}; }
		static std::size_t first(const T & t) { if constexpr(!W::real) return t.first; else if constexpr(Str) return static_cast<std::size_t>(t.data() - ctx.text); else return static_cast<std::size_t>(t.data() - ctx.ints); }
		static std::size_t size(const T & t) { if constexpr(!W::real) return t.n; else return t.size(); }
		static T gen(Rng & r) { const auto f{r.below(total() + 1)}; return make(f, r.below(total() - f + 1)); }
		static void mutate(T & a, T & b, Rng & r) {
			const auto n{size(a)}; const auto p{r.below(n + 1)}, q{r.below(n - p + 1)};
			switch(r.below(7)) {
				case 0: a = b; break;
				case 1: { using std::swap; swap(a, b); break; }
				case 2: if constexpr(!W::real) a = make(first(a) + p, q); else if constexpr(Str) a = a.substr(p, q); else a = a.subrange(p, q); break;
				case 3: if constexpr(!W::real) a = make(first(a), p); else if constexpr(Str) a.remove_suffix(n - p); else a = a.first(p); break;
				case 4: if constexpr(!W::real) a = make(first(a) + p, n - p); else if constexpr(Str) a.remove_prefix(p); else a = a.last(n - p); break;
				case 5: { const T c{a}; b = c; break; }
				default: a = gen(r);
			}
		}
		static void dump(const T & t, Out & o) { o.put('@'); o.num(static_cast<long long>(first(t))); o.put('+'); o.num(static_cast<long long>(size(t))); std::size_t h{0}; if constexpr(!W::real) { for(std::size_t i{0}; i < t.n; ++i) h = h * 31 + static_cast<std::size_t>(Str ? static_cast<int>(ctx.text[t.first + i]) : ctx.ints[t.first + i]); } else { for(auto x : t) h = h * 31 + static_cast<std::size_t>(static_cast<int>(x)); } o.num(static_cast<long long>(h)); }
		static int cmp(const T & a, const T & b) { return (first(a) == first(b) && size(a) == size(b)); }
	};
	struct MPtr { long at; }; // -1: empty
	struct MVar { int which; long at; };
	struct MFun { int which; };
	inline int fun0(int v) noexcept { return v * 3 + 1; } inline int fun1(int v) noexcept { return v - 7; }
	struct Functor { int k; int operator()(int v) const noexcept { return v + k; } };
	template<typename W> struct Do<W, FRef>; template<typename W> struct Do<W, SRef>; template<typename W> struct Do<W, ARef>; template<typename W> struct Do<W, ORef>; template<typename W> struct Do<W, VRef>;
	template<> struct Do<M, SRef> : AnyView<M, MView, true> {};
	template<> struct Do<M, ARef> : AnyView<M, MView, false> {};
	template<typename W, typename R> struct AnyORef {
		using T = R;
		static T gen(Rng & r) { const auto k{r.below(ctx.n_ints + 1)}; if constexpr(!W::real) return {k == ctx.n_ints ? -1 : static_cast<long>(k)}; else { T t; if(k != ctx.n_ints) t = ctx.ints[k]; return t; } }
		static void mutate(T & a, T & b, Rng & r) { switch(r.below(4)) { case 0: a = b; break; case 1: std::swap(a, b); break; case 2: if constexpr(!W::real) a.at = -1; else a = std::nullopt; break; default: a = gen(r); } }
		static void dump(const T & t, Out & o) { o.put('?'); if constexpr(!W::real) o.num(t.at); else o.num(t ? &*t - ctx.ints : -1); }
		static int cmp(const T &, const T &) { return 0; }
	};
	template<> struct Do<M, ORef> : AnyORef<M, MPtr> {};
	template<typename W, typename R> struct AnyVRef { // variant_ref<int, const char, const int>
		using T = R;
		static T gen(Rng & r) { const int w{static_cast<int>(r.below(3))}; const auto k{r.below(w == 1 ? ctx.n_text : ctx.n_ints)}; if constexpr(!W::real) return {w, static_cast<long>(k)}; else if(w == 0) return T{ctx.ints[k]}; else if(w == 1) return T{ctx.text[k]}; else return T{std::as_const(ctx.ints[k])}; }
		static void mutate(T & a, T & b, Rng & r) { switch(r.below(3)) { case 0: a = b; break; case 1: std::swap(a, b); break; default: a = gen(r); } }
		static void dump(const T & t, Out & o) { int w; long at; if constexpr(!W::real) { w = t.which; at = t.at; } else { w = t.template holds<int>() ? 0 : t.template holds<const char>() ? 1 : t.template holds<const int>() ? 2 : 9; at = -1; t.visit([&](int & x) { at = &x - ctx.ints; }, [&](const char & x) { at = &x - ctx.text; }, [&](const int & x) { at = &x - ctx.ints; }); } o.put('&'); o.num(w); o.put('@'); o.num(at); }
		static int cmp(const T &, const T &) { return 0; }
	};
	template<> struct Do<M, VRef> : AnyVRef<M, MVar> {};
	inline const Functor functors[3]{{5}, {-11}, {100}};
	template<typename W, typename R> struct AnyFRef {
		using T = R;
		static T gen(Rng & r) { const int k{static_cast<int>(r.below(5))}; if constexpr(!W::real) return {k}; else if(k == 0) return T{fun0}; else if(k == 1) return T{fun1}; else return T{functors[k - 2]}; }
		static void mutate(T & a, T & b, Rng & r) { switch(r.below(3)) { case 0: a = b; break; case 1: std::swap(a, b); break; default: a = gen(r); } }
		static void dump(const T & t, Out & o) { o.put('$'); for(int v : {0, 10, -4}) { if constexpr(!W::real) o.num(t.which == 0 ? fun0(v) : t.which == 1 ? fun1(v) : functors[t.which - 2](v)); else o.num(t(v)); o.put(' '); } }
		static int cmp(const T &, const T &) { return 0; }
	};
	template<> struct Do<M, FRef> : AnyFRef<M, MFun> {};
	#ifndef WORLD_MODEL_ONLY
	template<> struct Do<P, SRef> : AnyView<P, ptl::string_ref, true> {};
	template<> struct Do<P, ARef> : AnyView<P, ptl::array_ref<int>, false> {};
	template<> struct Do<P, ORef> : AnyORef<P, ptl::optional_ref<int>> {};
	template<> struct Do<P, VRef> : AnyVRef<P, ptl::variant_ref<int, const char, const int>> {};
	template<> struct Do<P, FRef> : AnyFRef<P, ptl::function_ref<int(int) const noexcept>> {};
	#endif

	// ---------------------------------------------------------------- the same interface for all types, also across binaries
	struct Ops {
		const char * name; std::size_t size, align;
		void (*gen)(void *, Rng *); void (*fresh)(void *); void (*copy)(void *, const void *); void (*move)(void *, void *); void (*destroy)(void *);
		void (*mutate)(void *, void *, Rng *); void (*dump)(const void *, Out *); int (*cmp)(const void *, const void *);
	};
	template<typename W, typename D> constexpr Ops ops(const char * name) {
		using F = Do<W, D>; using T = typename F::T;
		return {name, sizeof(T), alignof(T),
			[](void * p, Rng * r) { ::new(p) T(F::gen(*r)); }, [](void * p) { if constexpr(std::is_default_constructible_v<T> && !std::is_same_v<D, VRef> && !std::is_same_v<D, FRef> && !IsTup<D>::value) ::new(p) T{}; else { Rng r{1}; ::new(p) T(F::gen(r)); } },
			[](void * p, const void * q) { ::new(p) T(*static_cast<const T *>(q)); }, [](void * p, void * q) { ::new(p) T(std::move(*static_cast<T *>(q))); }, [](void * p) { static_cast<T *>(p)->~T(); },
			[](void * a, void * b, Rng * r) { F::mutate(*static_cast<T *>(a), *static_cast<T *>(b), *r); }, [](const void * p, Out * o) { F::dump(*static_cast<const T *>(p), *o); }, [](const void * a, const void * b) { return F::cmp(*static_cast<const T *>(a), *static_cast<const T *>(b)); }};
	}
}
