// array and tuple against plain sequences: construction, transfer, accessors, lifetimes, copies, alignment.
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include "../rt/elems.hpp"

namespace {
	using namespace mon;
	using std::get;
	template<typename T> T * at(T & t) { return std::addressof(t); }
	template<typename T, std::size_t N>
	struct ARun {
		using Arr = ptl::array<T, N>; using L = El<T>;
		struct Box { Arr a; std::vector<int> m; Box() : m(N, L::dflt) {} };
		Rng & r; std::vector<Box> pool; int next_id{1}; const char * last_op{"start"};
		explicit ARun(Rng & r) : r{r}, pool(3) {}
		int id() { return next_id++; }
		static int norm(int id) { return L::get(L::make(id)); }
		static bool is(const Arr & a, const std::vector<int> & m) { for(std::size_t i{0}; i < N; ++i) if(L::get(a.data()[i]) != m[i]) return false; return true; }
		template<std::size_t I> void one_get(Arr & a, const char * op) { const Arr & c{a}; const T * p{c.data() + I}; T && x{get<I>(std::move(a))}; const T && y{get<I>(std::move(c))}; CHECK("C21", "get", at(get<I>(a)) == p && at(get<I>(c)) == p && at(x) == p && at(y) == p, "after %s: get<%zu> yields another element", op, I); }
		template<std::size_t... I> void every_get(Arr & a, const char * op, std::index_sequence<I...>) { (one_get<I>(a, op), ...); }
		void check(Box & b, const char * op) {
			if(poisoned) return;
			Arr & a{b.a}; const Arr & c{a};
			CHECK("C21", "size", c.size() == N && c.empty() == (N == 0) && c.max_size() == N && static_cast<std::size_t>(c.end() - c.begin()) == N && static_cast<std::size_t>(a.end() - a.begin()) == N && static_cast<std::size_t>(c.rend() - c.rbegin()) == N, "after %s: size or end() wrong for length %zu", op, N);
			for(std::size_t i{0}; i < N && !poisoned; ++i) {
				const T * p{c.data() + i};
				CHECK("C27", "misaligned", reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0, "after %s: element %zu of an array of %s is misaligned", op, i, L::name());
				if(L::tracked && !Life::alive(p)) { CHECK("C07", "dead-element", false, "after %s: element %zu of %zu is not alive", op, i, N); return; }
				CHECK("C21", "content", L::get(*p) == b.m[i], "after %s: element %zu is %d, expected %d", op, i, L::get(*p), b.m[i]);
				CHECK("C21", "access", at(c[i]) == p && at(a[i]) == p && a.data() + i == p && at(c.at(i)) == p && at(a.at(i)) == p && at(*(c.begin() + i)) == p && at(*(a.rbegin() + (N - 1 - i))) == p && static_cast<const void *>(p) == static_cast<const void *>(reinterpret_cast<const unsigned char *>(&c) + i * sizeof(T)), "after %s: accessors of element %zu disagree", op, i);
			}
			if constexpr(N > 0) {
				CHECK("C21", "front-back", at(c.front()) == c.data() && at(a.front()) == c.data() && at(c.back()) == c.data() + N - 1 && at(a.back()) == c.data() + N - 1, "after %s: front/back wrong", op);
				CHECK("C21", "get", at(get<0>(c)) == c.data() && at(get<N - 1>(a)) == c.data() + N - 1 && at(get<N / 2>(a)) == c.data() + N / 2, "after %s: get wrong", op);
				every_get(a, op, std::make_index_sequence<(N < 40 ? N : 0)>{});
				T && x{get<N - 1>(std::move(a))}; const T && y{get<0>(std::move(c))};
				CHECK("C21", "get-rvalue", at(x) == c.data() + N - 1 && at(y) == c.data(), "after %s: get of an rvalue wrong", op);
			}
			if constexpr(N == 3) {
				auto & [p, q, s]{a}; const auto & [cp, cq, cs]{c};
				CHECK("C21", "bindings", at(p) == at(a[0]) && at(q) == at(a[1]) && at(s) == at(a[2]) && at(cp) == at(c[0]) && at(cq) == at(c[1]) && at(cs) == at(c[2]), "after %s: structured bindings designate other elements", op);
				HIT("structured bindings");
			}
		}
		void check_all(const char * op) {
			for(auto & b : pool) check(b, op);
			if(L::tracked) CHECK("C07", "live-count", Life::live == pool.size() * N, "after %s: %zu objects are alive, the arrays hold %zu", op, Life::live, pool.size() * N);
			CHECK("C27", "misaligned", !Life::misaligned, "during %s an object was constructed at a misaligned address", op);
			Hash h; h.add(op, std::strlen(op)); h.add(N); h.add(L::name(), 3); for(auto & b : pool) for(auto x : b.m) h.add(static_cast<std::uint64_t>(x == L::dflt) + 2 * (x == L::moved(x))); state(h.h);
		}
		void copies(const char * op, int allowed) { if(L::tracked) CHECK("C08", "hidden-copy", Life::n_copied <= allowed, "%s made %d copies, at most %d are needed", op, Life::n_copied, allowed); }
		template<std::size_t... I> Arr from_lvalues(const T * p, std::index_sequence<I...>) { return SUT(Arr{p[I]...}); }
		template<std::size_t... I> Arr from_rvalues(T * p, std::index_sequence<I...>) { return SUT(Arr{std::move(p[I])...}); }
		template<std::size_t K> void construct(Box & b) { // from K <= N elements
			std::vector<int> w(N, L::dflt); Sources<T> src; src.reserve(K);
			for(std::size_t i{0}; i < K; ++i) { const auto k{id()}; src.push_back(L::make(k)); w[i] = norm(k); }
			const bool mv{r.chance(1, 2)};
			OP("construct array of %zu from %zu %s", N, K, mv ? "rvalues" : "lvalues");
			const auto live{Life::live};
			if(L::tracked && r.chance(1, 2) && N) { // faults first
				for(long k{0};; ++k) {
					Life::fired = false; Life::throw_in = k; bool threw{false};
					try { Arr t{from_lvalues(src.data(), std::make_index_sequence<K>{})}; } catch(const Injected &) { threw = true; }
					Life::throw_in = -1;
					if(!threw) break;
					CHECK("C07", "live-after-fault", Life::live == live, "constructing an array failed at point %ld: %zu objects alive before, %zu after", k, live, Life::live);
					HIT("array constructor faults judged");
					if(mon::stop()) return;
				}
			}
			Life::n_copied = 0;
			Arr t{mv ? from_rvalues(src.data(), std::make_index_sequence<K>{}) : from_lvalues(src.data(), std::make_index_sequence<K>{})};
			copies("array construction", mv ? 0 : static_cast<int>(K));
			CHECK("C21", "construct", is(t, w), "an array constructed from %zu of %zu elements holds something else", K, N);
			if(K < N) HIT("partly given");
			Life::n_copied = 0;
			SUT(b.a = std::move(t)); copies("array move assignment", 0);
			b.m = w;
		}
		void step() {
			auto & b{pool[r.below(3)]}; auto & o{pool[r.below(3)]}; Arr & a{b.a};
			const auto k{id()};
			Life::n_copied = 0;
			switch(r.below(14)) {
				case 0: last_op = "construct"; construct<N>(b); break;
				case 1: last_op = "construct"; construct<(N > 0 ? N - 1 : 0)>(b); break;
				case 2: last_op = "construct"; construct<N / 2>(b); break;
				case 3: { last_op = "copy"; OP("copy construct"); Arr t{SUT(Arr(std::as_const(a)))}; copies("array copy construction", N); CHECK("C21", "construct", is(t, b.m), "a copy of an array differs"); if(N) { T x(L::make(k)); t.data()[N - 1] = x; } check(b, "changing a copy"); HIT("array copy"); break; }
				case 4: { last_op = "move"; OP("move construct"); Arr t{SUT(Arr(std::move(a)))}; copies("array move construction", 0); CHECK("C21", "construct", is(t, b.m), "move construction of an array differs"); for(auto & x : b.m) x = L::moved(x); HIT("array move"); break; }
				case 5: { last_op = "= copy"; OP("copy assign%s", &o == &b ? " self" : ""); const Arr * src{&o.a}; Arr & x{SUT(a = *src)}; CHECK("C21", "returned", at(x) == at(a), "a wrong reference was returned"); copies("array copy assignment", N); b.m = o.m; if(&o == &b) HIT("array self assign"); break; }
				case 6: if(&o != &b) { last_op = "= move"; OP("move assign"); SUT(a = std::move(o.a)); copies("array move assignment", 0); b.m = o.m; for(auto & x : o.m) x = L::moved(x); } break;
				case 7: case 8: { last_op = "swap"; OP("swap%s", &o == &b ? " self" : ""); Arr * s{&o.a}; switch(r.below(3)) { case 0: SUT(a.swap(*s)); break; case 1: { using std::swap; SUT(swap(a, *s)); break; } default: if(&o != &b) SUT(std::swap(a, *s)); } copies("array swap", 0); std::swap(b.m, o.m); HIT("array swap"); break; }
				case 9: { last_op = "fill"; OP("fill"); T t(L::make(k)); SUT(a.fill(t)); copies("fill", N); CHECK("C08", "lvalue-changed", L::get(t) == norm(k), "fill changed its argument"); b.m.assign(N, norm(k)); HIT("array fill"); break; }
				case 10: if constexpr(N > 0) { last_op = "fill own"; const auto j{r.below(N)}; OP("fill with own element %zu", j); const auto x{b.m[j]}; SUT(a.fill(a[j])); b.m.assign(N, x); HIT("array fill own"); } break;
				case 11: case 12: if constexpr(N > 0) { last_op = "write"; const auto j{r.below(N)}; OP("write element %zu", j); T t(L::make(k)); switch(r.below(6)) { case 0: a[j] = t; b.m[j] = norm(k); break; case 1: a.at(j) = t; b.m[j] = norm(k); break; case 2: *(a.begin() + j) = t; b.m[j] = norm(k); break; case 3: a.front() = t; b.m[0] = norm(k); break; case 4: a.back() = t; b.m[N - 1] = norm(k); break; default: get<N / 2>(a) = t; b.m[N / 2] = norm(k); } HIT("array write"); } break;
				default: if constexpr(N > 0) { last_op = "take"; OP("take an element of an rvalue"); { T t(SUT(get<N / 2>(std::move(a)))); CHECK("C21", "take", L::get(t) == b.m[N / 2], "get of an rvalue yields another element"); } copies("get of an rvalue", 0); b.m[N / 2] = L::moved(b.m[N / 2]); HIT("array take"); }
			}
		}
		void history() {
			for(auto & b : pool) check(b, "default construction");
			HIT("value-initialised");
			const auto steps{r.range(5, N > 16 ? 10 : 30)};
			for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); if(!poisoned) check_all(last_op); }
			if(!mon::stop()) { pool.clear(); if(L::tracked) CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their arrays", Life::live); }
			else new std::vector<Box>(std::move(pool));
		}
	};
	template<typename T, std::size_t N> void arrays(Rng & r) { ARun<T, N> run{r}; run.history(); }
	template<typename T> void all_arrays(Rng & r) { switch(r.below(6)) { case 0: arrays<T, 0>(r); break; case 4: if constexpr(sizeof(T) < 9 && !El<T>::tracked) arrays<T, 131>(r); else arrays<T, 33>(r); break; case 1: arrays<T, 1>(r); break; case 2: arrays<T, 2>(r); break; case 3: arrays<T, 3>(r); break; default: arrays<T, 7>(r); } }

	// tuples: all element types differ in size; A and B are tracked
	using A = Tr<0>; using B = Tr<1, 4, 40>;
	template<typename... T>
	struct TRun {
		using Tup = ptl::tuple<T...>; static constexpr std::size_t N{sizeof...(T)}; using Ix = std::make_index_sequence<N>;
		using M = std::array<int, N>; using Src = std::tuple<T...>;
		Rng & r; struct Box { Tup t; M m; }; std::vector<Box> pool; int next_id{1}; const char * last_op{"start"};
		static constexpr int n_tracked{((El<T>::tracked ? 1 : 0) + ...)};
		explicit TRun(Rng & r) : r{r} { pool.reserve(3); for(int i{0}; i < 3; ++i) { M m{}; Src s(source(m)); pool.push_back(Box{build(s, Ix{}, false), m}); } }
		int id() { return next_id++; }
		Src source(M & m) { std::size_t i{0}; return Src{[&] { const auto k{id()}; auto t(El<T>::make(k)); m[i++] = El<T>::get(t); return t; }()...}; } // brace initialisation: in order
		template<std::size_t... I> static Tup build(Src & s, std::index_sequence<I...>, bool mv) { if(mv) return SUT(Tup(std::move(std::get<I>(s))...)); return SUT(Tup(std::as_const(std::get<I>(s))...)); }
		template<std::size_t... I> static bool eq(const Tup & t, const M & m, std::index_sequence<I...>) { return ((El<T>::get(t.template get<I>()) == m[I]) && ...); }
		template<std::size_t... I> static M moved(const M & m, std::index_sequence<I...>) { return M{El<T>::moved(m[I])...}; }
		template<std::size_t I> void check_one(Box & b, const char * op) {
			Tup & t{b.t}; const Tup & c{t};
			using X = std::tuple_element_t<I, Src>;
			static_assert(std::is_same_v<std::tuple_element_t<I, Tup>, X> && std::tuple_size_v<Tup> == N);
			const X & x{c.template get<I>()};
			if(El<X>::tracked && !Life::alive(at(x))) { CHECK("C07", "dead-element", false, "after %s: element %zu of a tuple is not alive", op, I); return; }
			if(poisoned) return;
			CHECK("C21", "content", El<X>::get(x) == b.m[I], "after %s: tuple element %zu is %d, expected %d", op, I, El<X>::get(x), b.m[I]);
			X && rv{std::move(t).template get<I>()}; const X && cv{std::move(c).template get<I>()};
			CHECK("C21", "get", at(t.template get<I>()) == at(x) && at(rv) == at(x) && at(cv) == at(x), "after %s: get of tuple element %zu disagrees", op, I);
			const auto off{reinterpret_cast<const unsigned char *>(at(x)) - reinterpret_cast<const unsigned char *>(&c)};
			CHECK("C21", "inside", off >= 0 && static_cast<std::size_t>(off) + sizeof(X) <= sizeof(Tup), "after %s: tuple element %zu lies outside the tuple", op, I);
		}
		template<std::size_t... I> void check_each(Box & b, const char * op, std::index_sequence<I...>) { (check_one<I>(b, op), ...); }
		void check_all(const char * op) {
			for(auto & b : pool) if(!poisoned) check_each(b, op, Ix{});
			if(n_tracked) CHECK("C07", "live-count", Life::live == pool.size() * n_tracked, "after %s: %zu objects are alive, the tuples hold %zu", op, Life::live, pool.size() * n_tracked);
			Hash h; h.add(op, std::strlen(op)); h.add(N); for(auto & b : pool) for(auto x : b.m) h.add(x == moved_from); h.add(next_id % 16); state(h.h);
		}
		void copies(const char * op, int allowed) { CHECK("C08", "hidden-copy", Life::n_copied <= allowed, "%s made %d copies, at most %d are needed", op, Life::n_copied, allowed); }
		template<std::size_t... I> void write(Box & b, std::size_t j, std::index_sequence<I...>) { ((I == j ? (b.m[I] = [&] { const auto k{id()}; T t(El<T>::make(k)); b.t.template get<I>() = t; return El<T>::get(t); }(), 0) : 0), ...); }
		template<std::size_t... I> void take(Box & b, std::size_t j, std::index_sequence<I...>) { ((I == j ? ([&] { { T t(SUT(std::move(b.t).template get<I>())); CHECK("C21", "take", El<T>::get(t) == b.m[I], "get of an rvalue tuple yields another value"); } b.m[I] = El<T>::moved(b.m[I]); }(), 0) : 0), ...); }
		void step() {
			auto & b{pool[r.below(3)]}; auto & o{pool[r.below(3)]}; Tup & t{b.t};
			Life::n_copied = 0;
			switch(r.below(10)) {
				case 0: case 1: { last_op = "construct"; M m{}; Src s(source(m)); const bool mv{r.chance(1, 2)}; OP("construct tuple of %zu from %s", N, mv ? "rvalues" : "lvalues"); Life::n_copied = 0;
					const auto live{Life::live};
					if(n_tracked && !mv) for(long k{0};; ++k) { Life::throw_in = k; bool threw{false}; try { Tup x{build(s, Ix{}, false)}; } catch(const Injected &) { threw = true; } Life::throw_in = -1; if(!threw) break; CHECK("C07", "live-after-fault", Life::live == live, "constructing a tuple failed at point %ld: %zu objects alive before, %zu after", k, live, Life::live); HIT("tuple constructor faults judged"); if(mon::stop()) return; }
					Life::n_copied = 0;
					{ Tup x{build(s, Ix{}, mv)}; copies("tuple construction", mv ? 0 : n_tracked); CHECK("C21", "construct", eq(x, m, Ix{}), "a tuple holds other values than it was given"); Life::n_copied = 0; SUT(t = std::move(x)); copies("tuple move assignment", 0); } b.m = m; break; }
				case 2: { last_op = "copy"; OP("copy construct"); Tup x{SUT(Tup(std::as_const(t)))}; copies("tuple copy", n_tracked); CHECK("C21", "construct", eq(x, b.m, Ix{}), "a copy of a tuple differs"); M m{b.m}; Box c{std::move(x), m}; write(c, r.below(N), Ix{}); HIT("tuple copy"); break; }
				case 3: { last_op = "move"; OP("move construct"); Tup x{SUT(Tup(std::move(t)))}; copies("tuple move", 0); CHECK("C21", "construct", eq(x, b.m, Ix{}), "move construction of a tuple differs"); b.m = moved(b.m, Ix{}); HIT("tuple move"); break; }
				case 4: { last_op = "= copy"; OP("copy assign%s", &o == &b ? " self" : ""); const Tup * s{&o.t}; Tup & x{SUT(t = *s)}; CHECK("C21", "returned", &x == &t, "a wrong reference was returned"); copies("tuple copy assignment", n_tracked); b.m = o.m; break; }
				case 5: if(&o != &b) { last_op = "= move"; OP("move assign"); SUT(t = std::move(o.t)); copies("tuple move assignment", 0); b.m = o.m; o.m = moved(o.m, Ix{}); } break;
				case 6: case 7: { last_op = "swap"; OP("swap%s", &o == &b ? " self" : ""); Tup * s{&o.t}; switch(r.below(3)) { case 0: SUT(t.swap(*s)); break; case 1: { using std::swap; SUT(swap(t, *s)); break; } default: if(&o != &b) SUT(std::swap(t, *s)); } copies("tuple swap", 0); std::swap(b.m, o.m); HIT("tuple swap"); break; }
				case 8: last_op = "write"; OP("write"); write(b, r.below(N), Ix{}); HIT("tuple write"); break;
				default: last_op = "take"; OP("take from an rvalue"); take(b, r.below(N), Ix{}); copies("get of an rvalue tuple", 0); HIT("tuple take");
			}
		}
		void history() {
			const auto steps{r.range(5, 30)};
			check_all("construction");
			for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); if(!poisoned) check_all(last_op); }
			if(!mon::stop()) { pool.clear(); CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their tuples", Life::live); }
			else new std::vector<Box>(std::move(pool));
		}
	};
	template<typename... T> void tuples(Rng & r) { TRun<T...> run{r}; run.history(); }
	void all_tuples(Rng & r) { switch(r.below(6)) { case 4: tuples<List, int, Self, A>(r); break; case 5: tuples<Padded, char, Amp, double, bool, Starts, Odd3>(r); break; case 0: tuples<A, B>(r); break; case 1: tuples<int, A, std::string, B, char>(r); break; case 2: tuples<A, A, A>(r); break; default: tuples<std::string, int, char>(r); } }
	void single(Rng & r) { // one element: only what compiles for it
		const auto k{static_cast<int>(r.below(1000))};
		OP("tuple of one");
		{ A a{k}; ptl::tuple<A> t{std::as_const(a)}; const ptl::tuple<A> & c{t}; CHECK("C21", "content", c.get<0>().get() == k, "a tuple of one holds %d, expected %d", c.get<0>().get(), k); ptl::tuple<A> u{c}; ptl::tuple<A> v{std::move(u)}; CHECK("C21", "content", v.get<0>().get() == k && c.get<0>().get() == k, "a copied tuple of one differs"); v.swap(t); CHECK("C21", "content", v.get<0>().get() == k && t.get<0>().get() == k, "swapping tuples of one loses values"); }
		CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their tuples", Life::live);
		const ptl::tuple b{1, 'c', 2.5}; const auto & [x, y, z]{b}; CHECK("C21", "bindings", x == 1 && y == 'c' && z == 2.5, "a deduced tuple holds other values"); HIT("tuple structured bindings");
	}
	// in-memory placement of arrays inside each other and on the heap keeps over-aligned elements aligned
	void nested(Rng & r) {
		using X = Tr<5, 64>;
		OP("nested arrays of over-aligned elements");
		std::vector<std::unique_ptr<ptl::array<ptl::array<X, 2>, 3>>> v;
		const auto n{r.range(1, 4)};
		for(std::size_t i{0}; i < n; ++i) v.push_back(std::make_unique<ptl::array<ptl::array<X, 2>, 3>>());
		for(auto & p : v) for(auto & a : *p) for(auto & x : a) CHECK("C27", "misaligned", reinterpret_cast<std::uintptr_t>(&x) % 64 == 0, "an element of a nested array is misaligned");
		CHECK("C07", "live-count", Life::live == n * 6, "%zu objects are alive, the arrays hold %zu", Life::live, n * 6);
		HIT("nested arrays"); Hash h; h.add(n); h.add(77); state(h.h);
	}
#if PART == 0
	SCENARIO("array<tracked> history", "C21,C07,C08", all_arrays<Tr<0>>, 3);
	SCENARIO("array<int> history", "C21", all_arrays<int>, 1);
	SCENARIO("array<over-aligned> history", "C27", (arrays<Tr<6, 64, 3>, 3>), 2);
	SCENARIO("array<align 32> history", "C27", (arrays<Tr<7, 32, 40>, 7>), 1);
	SCENARIO("nested arrays", "C27,C07", nested, 1);
	SCENARIO("tuple of one", "C21,C07", single, 1);
	REQUIRE("C21", "partly given"); REQUIRE("C21", "structured bindings"); REQUIRE("C21", "array swap"); REQUIRE("C21", "array fill own"); REQUIRE("C21", "array self assign"); REQUIRE("C21", "tuple swap"); REQUIRE("C21", "tuple move"); REQUIRE("C21", "tuple write"); REQUIRE("C21", "array take"); REQUIRE("C21", "value-initialised");
	REQUIRE("C07", "array constructor faults judged"); REQUIRE("C07", "tuple constructor faults judged");
#elif PART == 1
	SCENARIO("tuple history", "C21,C07,C08", all_tuples, 3);
#elif PART == 2
	SCENARIO("array<std::string> history", "C21,C07", all_arrays<std::string>, 1);
	SCENARIO("array<padded> history", "C21", all_arrays<Padded>, 1);
	SCENARIO("array<self pointer> history", "C21", all_arrays<Self>, 2);
	SCENARIO("array<pointer> history", "C21", all_arrays<const int *>, 1);
#elif PART == 3
	SCENARIO("array<bool> history", "C21", all_arrays<bool>, 1);
	SCENARIO("array<3 bytes> history", "C21", all_arrays<Odd3>, 1);
	SCENARIO("array<overloaded &> history", "C21", all_arrays<Amp>, 1);
#elif PART == 4
	SCENARIO("array<double> history", "C21", all_arrays<double>, 1);
	SCENARIO("array<default 77> history", "C21", all_arrays<Starts>, 1);
	SCENARIO("array<list of itself> history", "C21", all_arrays<List>, 1);
#endif
}
