// The published layout, decoded and written by hand. Shares nothing with the library.
#pragma once
#include "modapi.hpp"
#include <algorithm>
namespace golden {
	using namespace world;
	using Byte = unsigned char;
	void * take(std::size_t n);              // a block of the hand-written producer
	extern "C" void golden_release(void * p) noexcept; // its deallocation function
	bool readable(const void * p, std::size_t n); // a live block of at least n bytes starts at p
	extern bool bad;                         // a decoder met something the layout does not allow
	inline void wrong(Out & o, const char * what) { bad = true; o.put("(", 1); o.put(what, std::strlen(what)); o.put(")", 1); }
	template<typename T> T load(const Byte * p) { T t; std::memcpy(&t, p, sizeof t); return t; }
	template<typename T> void store(Byte * p, const T & t) { std::memcpy(p, &t, sizeof t); }
	using Release = void (*)(void *);
	constexpr std::size_t up(std::size_t n, std::size_t a) { return (n + a - 1) / a * a; }

	template<typename D> struct G;
	template<typename D, typename X> struct GScalar {
		static constexpr std::size_t size{sizeof(X)}, align{alignof(X)};
		static void dump(const Byte * p, Out & o) { o.num(static_cast<long long>(load<X>(p))); }
		static void build(Byte * p, const X & v, Rng &) { store(p, v); }
		static void destroy(Byte *) {}
	};
	template<> struct G<I> : GScalar<I, int> {}; template<> struct G<C> : GScalar<C, char> {}; template<> struct G<L> : GScalar<L, long long> {};
	template<> struct G<S> {
		static constexpr std::size_t size{32}, align{8};
		static void dump(const Byte * p, Out & o) {
			const auto fn{load<Release>(p)}; std::size_t n; const char * c;
			if(!fn) { n = p[8]; c = reinterpret_cast<const char *>(p + 9); if(n > 22) return wrong(o, "inline size above 22"); }
			else { c = load<const char *>(p + 8); const auto cap{load<std::size_t>(p + 16)}; n = load<std::size_t>(p + 24); if(n > cap) return wrong(o, "size above capacity"); if(!readable(c, cap + 1)) return wrong(o, "pointer does not designate a block of capacity + 1"); }
			o.put('"'); o.num(static_cast<long long>(n)); o.put(':'); o.put(c, n); if(c[n]) o.put("(no terminator)", 15); o.put('"');
		}
		static void build(Byte * p, const std::string & v, Rng & r) {
			if(v.size() <= 22 && r.chance(3, 4)) { store<Release>(p, nullptr); p[8] = static_cast<Byte>(v.size()); std::memcpy(p + 9, v.data(), v.size()); p[9 + v.size()] = 0; return; }
			const auto cap{std::max<std::size_t>(v.size(), 23) + r.below(50)};
			char * c{static_cast<char *>(take(cap + 1))}; std::memcpy(c, v.data(), v.size()); c[v.size()] = 0;
			store<Release>(p, golden_release); store(p + 8, c); store(p + 16, cap); store(p + 24, v.size());
		}
		static void destroy(Byte * p) { if(const auto fn{load<Release>(p)}) fn(load<void *>(p + 8)); }
	};
	template<typename E> struct G<Vec<E>> {
		using F = G<E>; static constexpr std::size_t size{32}, align{8}, step{up(F::size, F::align)};
		static Byte * at(const Byte * p, std::size_t i) { return load<Byte *>(p + 8) + i * step; }
		static void dump(const Byte * p, Out & o) {
			const auto fn{load<Release>(p)}; const auto ptr{load<void *>(p + 8)}; const auto cap{load<std::size_t>(p + 16)}, n{load<std::size_t>(p + 24)};
			if(!fn && (ptr || cap || n)) return wrong(o, "storage without a deallocation function");
			if(fn && (n > cap || !cap || !readable(ptr, cap * step))) return wrong(o, "pointer does not designate capacity elements");
			o.put('['); for(std::size_t i{0}; i < n; ++i) { F::dump(at(p, i), o); o.put(','); } o.put(']');
		}
		template<typename V> static void build(Byte * p, const V & v, Rng & r) {
			std::memset(p, 0, 32);
			if(v.empty() && r.chance(1, 2)) return;
			const auto cap{v.size() + r.below(8) + (v.empty() ? 1 : 0)};
			Byte * b{static_cast<Byte *>(take(cap * step))}; for(std::size_t i{0}; i < v.size(); ++i) F::build(b + i * step, v[i], r);
			store<Release>(p, golden_release); store(p + 8, b); store(p + 16, cap); store(p + 24, v.size());
		}
		static void destroy(Byte * p) { const auto n{load<std::size_t>(p + 24)}; for(std::size_t i{0}; i < n; ++i) F::destroy(at(p, i)); if(const auto fn{load<Release>(p)}) fn(load<void *>(p + 8)); }
	};
	template<typename E> struct G<Opt<E>> {
		using F = G<E>; static constexpr std::size_t size{F::size + 1}, align{1};
		static void dump(const Byte * p, Out & o) { switch(p[F::size]) { case 0: o.put('~'); break; case 1: o.put('!'); F::dump(p, o); break; default: wrong(o, "flag is neither 0 nor 1"); } }
		template<typename V> static void build(Byte * p, const V & v, Rng & r) { p[F::size] = v.has_value(); if(v) F::build(p, *v, r); }
		static void destroy(Byte * p) { if(p[F::size]) F::destroy(p); }
	};
	template<typename... E> struct G<Var<E...>> {
		static constexpr std::size_t most{std::max({G<E>::size...})}, size{most + 1}, align{1};
		template<typename Fn> static void each(Fn && f) { std::size_t i{0}; (f(i++, static_cast<G<E> *>(nullptr)), ...); }
		static void dump(const Byte * p, Out & o) { if(p[most] >= sizeof...(E)) return wrong(o, "no such alternative"); each([&](std::size_t i, auto * f) { if(i == p[most]) { o.put('<'); o.num(static_cast<long long>(i)); o.put(':'); std::remove_pointer_t<decltype(f)>::dump(p, o); o.put('>'); } }); }
		template<typename V, std::size_t... J> static void put(Byte * p, const V & v, Rng & r, std::index_sequence<J...>) { ((v.index() == J ? G<E>::build(p, std::get<J>(v), r) : void()), ...); }
		template<typename V> static void build(Byte * p, const V & v, Rng & r) { p[most] = static_cast<Byte>(v.index()); put(p, v, r, std::index_sequence_for<E...>{}); }
		static void destroy(Byte * p) { each([&](std::size_t i, auto * f) { if(i == p[most]) std::remove_pointer_t<decltype(f)>::destroy(p); }); }
	};
	template<typename E, std::size_t N> struct G<Arr<E, N>> {
		using F = G<E>; static constexpr std::size_t step{up(F::size, F::align)}, size{N * step}, align{F::align};
		static void dump(const Byte * p, Out & o) { o.put('('); for(std::size_t i{0}; i < N; ++i) { F::dump(p + i * step, o); o.put(';'); } o.put(')'); }
		template<typename V> static void build(Byte * p, const V & v, Rng & r) { for(std::size_t i{0}; i < N; ++i) F::build(p + i * step, v[i], r); }
		static void destroy(Byte * p) { for(std::size_t i{0}; i < N; ++i) F::destroy(p + i * step); }
	};
	template<typename... E> struct G<Tup<E...>> { // the last member comes first, no padding
		static constexpr std::size_t size{(G<E>::size + ...)}, align{1};
		static constexpr std::size_t offset(std::size_t k) { const std::size_t s[]{G<E>::size...}; std::size_t o{0}; for(std::size_t i{k + 1}; i < sizeof...(E); ++i) o += s[i]; return o; }
		static void dump(const Byte * p, Out & o) { o.put('{'); std::size_t i{0}; ((G<E>::dump(p + offset(i++), o), o.put('/')), ...); o.put('}'); }
		template<typename V, std::size_t... J> static void put(Byte * p, const V & v, Rng & r, std::index_sequence<J...>) { (G<E>::build(p + offset(J), std::get<J>(v), r), ...); }
		template<typename V> static void build(Byte * p, const V & v, Rng & r) { put(p, v, r, std::index_sequence_for<E...>{}); }
		static void destroy(Byte * p) { std::size_t i{0}; ((G<E>::destroy(p + offset(i++))), ...); }
	};
	template<std::size_t N> struct G<Bit<N>> {
		static constexpr std::size_t size{N == 0 ? 1 : (N + 7) / 8}, align{1};
		static void dump(const Byte * p, Out & o) { std::size_t c{0}; o.put('b'); for(std::size_t i{0}; i < N; ++i) { const bool b{(p[i / 8] >> (i % 8) & 1) != 0}; c += b; o.put(b ? '1' : '0'); } o.num(static_cast<long long>(c)); if(c == N) o.put('A'); if(c) o.put('a'); else o.put('n'); if(N % 8 && p[size - 1] >> (N % 8)) wrong(o, "bits beyond the size"); if(!N && p[0]) wrong(o, "bits beyond the size"); }
		template<typename V> static void build(Byte * p, const V & v, Rng &) { std::memset(p, 0, size); for(std::size_t i{0}; i < N; ++i) if(v[i]) p[i / 8] |= static_cast<Byte>(1 << (i % 8)); }
		static void destroy(Byte *) {}
	};
	template<typename D, bool Str> struct GView { // two pointers
		static constexpr std::size_t size{16}, align{8};
		static constexpr std::ptrdiff_t step{Str ? 1 : 4};
		static const Byte * base() { return Str ? reinterpret_cast<const Byte *>(ctx.text) : reinterpret_cast<const Byte *>(ctx.ints); }
		static std::size_t total() { return Str ? ctx.n_text : ctx.n_ints; }
		static void dump(const Byte * p, Out & o) {
			const auto a{(load<const Byte *>(p) - base()) / step}, b{(load<const Byte *>(p + 8) - base()) / step};
			if(a < 0 || b < a || b > static_cast<std::ptrdiff_t>(total())) return wrong(o, "not two pointers into the viewed range");
			Do<M, D>::dump(MView{static_cast<std::size_t>(a), static_cast<std::size_t>(b - a)}, o);
		}
		static void build(Byte * p, const MView & v, Rng &) { store(p, base() + static_cast<std::ptrdiff_t>(v.first) * step); store(p + 8, base() + static_cast<std::ptrdiff_t>(v.first + v.n) * step); }
		static void destroy(Byte *) {}
	};
	template<> struct G<SRef> : GView<SRef, true> {}; template<> struct G<ARef> : GView<ARef, false> {};
	template<> struct G<ORef> {
		static constexpr std::size_t size{8}, align{8};
		static void dump(const Byte * p, Out & o) { const auto q{load<const int *>(p)}; o.put('?'); o.num(q ? q - ctx.ints : -1); }
		static void build(Byte * p, const MPtr & v, Rng &) { store<const int *>(p, v.at < 0 ? nullptr : ctx.ints + v.at); }
		static void destroy(Byte *) {}
	};
	template<> struct G<VRef> {
		static constexpr std::size_t size{16}, align{8};
		static void dump(const Byte * p, Out & o) { const auto w{load<std::size_t>(p + 8)}; if(w > 2) return wrong(o, "no such alternative"); o.put('&'); o.num(static_cast<long long>(w)); o.put('@'); o.num(w == 1 ? load<const char *>(p) - ctx.text : load<const int *>(p) - ctx.ints); }
		static void build(Byte * p, const MVar & v, Rng &) { if(v.which == 1) store<const void *>(p, ctx.text + v.at); else store<const void *>(p, ctx.ints + v.at); store<std::size_t>(p + 8, static_cast<std::size_t>(v.which)); }
		static void destroy(Byte *) {}
	};
	inline int hand_functor(const void * const * st, int v) noexcept { return v + *static_cast<const int *>(*st); }
	inline int hand_function(const void * const * st, int v) noexcept { return reinterpret_cast<int (*)(int)>(const_cast<void *>(*st))(v); }
	template<> struct G<FRef> {
		static constexpr std::size_t size{16}, align{8};
		static void dump(const Byte * p, Out & o) { const auto f{load<int (*)(const void *, int)>(p + 8)}; o.put('$'); for(int v : {0, 10, -4}) { o.num(f(p, v)); o.put(' '); } }
		static void build(Byte * p, const MFun & v, Rng &) { using H = int (*)(const void * const *, int) noexcept; if(v.which < 2) { store<int (*)(int) noexcept>(p, v.which == 0 ? fun0 : fun1); store<H>(p + 8, hand_function); } else { store<const void *>(p, &functors[v.which - 2]); store<H>(p + 8, hand_functor); } }
		static void destroy(Byte *) {}
	};
	struct Hand { std::size_t size, align; void (*dump)(const Byte *, Out *); void (*build)(Byte *, const void * model, Rng *); void (*destroy)(Byte *); };
	template<typename D> Hand hand() { return {G<D>::size, G<D>::align, [](const Byte * p, Out * o) { G<D>::dump(p, *o); }, [](Byte * p, const void * m, Rng * r) { G<D>::build(p, *static_cast<const Type<M, D> *>(m), *r); }, G<D>::destroy}; }
}
