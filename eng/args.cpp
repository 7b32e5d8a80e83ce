// What reaches the constructor of an element that is built in place: the very objects given, with their constness and value category, once.
#include <utility>
#include <vector>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include "../rt/elems.hpp"

namespace {
	using namespace mon;
	struct Arg { // a constructor argument that knows what became of it
		int v; static int copies, moves;
		explicit Arg(int v) noexcept : v{v} {}
		Arg(const Arg & o) noexcept : v{o.v} { ++copies; }
		Arg(Arg && o) noexcept : v{o.v} { o.v = -1; ++moves; }
		Arg & operator=(const Arg & o) noexcept { v = o.v; ++copies; return *this; }
		Arg & operator=(Arg && o) noexcept { v = o.v; o.v = -1; ++moves; return *this; }
	};
	int Arg::copies{0}, Arg::moves{0};
	enum Cat { none, lvalue, const_lvalue, rvalue, const_rvalue };
	constexpr const char * names[]{"nothing", "an lvalue", "a const lvalue", "an rvalue", "a const rvalue"};
	struct Seen { const void * at{nullptr}; Cat cat{none}; };
	Seen seen[3]; int constructions;
	template<typename A> constexpr Cat cat() { return std::is_lvalue_reference_v<A> ? std::is_const_v<std::remove_reference_t<A>> ? const_lvalue : lvalue : std::is_const_v<std::remove_reference_t<A>> ? const_rvalue : rvalue; }
	template<typename A> void note(int i, A && a) noexcept { seen[i] = {std::addressof(a), cat<A &&>()}; }
	template<bool Nx, int Tag = 0> struct Rec { // built from zero to three arguments, taking over those it may
		int n, val[3];
		Rec() noexcept : n{0}, val{} {}
		template<typename A, typename = std::enable_if_t<std::is_same_v<std::decay_t<A>, Arg>>> Rec(A && a) noexcept(Nx) : n{1}, val{a.v, 0, 0} { ++constructions; note(0, std::forward<A>(a)); }
		template<typename A, typename B, typename = std::enable_if_t<std::is_same_v<std::decay_t<A>, Arg>>> Rec(A && a, B && b) noexcept(Nx) : n{2}, val{a.v, b.v, 0} { ++constructions; note(0, std::forward<A>(a)); note(1, std::forward<B>(b)); }
		template<typename A, typename B, typename C> Rec(A && a, B && b, C && c) noexcept(Nx) : n{3}, val{a.v, b.v, c.v} { ++constructions; note(0, std::forward<A>(a)); note(1, std::forward<B>(b)); note(2, std::forward<C>(c)); }
		bool is(int k, const int * w) const noexcept { if(n != k) return false; for(int i{0}; i < k; ++i) if(val[i] != w[i]) return false; return true; }
	};
	template<typename R> struct Givers { // calls f with k arguments of random categories
		Rng & r; Arg a[3]; Cat want[3]; int k; int vals[3];
		explicit Givers(Rng & r, int least = 0) : r{r}, a{Arg{static_cast<int>(r.range(1, 1000))}, Arg{static_cast<int>(r.range(1, 1000))}, Arg{static_cast<int>(r.range(1, 1000))}}, k{static_cast<int>(r.range(static_cast<std::size_t>(least), 3))} { for(int i{0}; i < 3; ++i) { want[i] = static_cast<Cat>(r.range(1, 4)); vals[i] = a[i].v; } }
		template<typename F> void with(int i, F && f) { switch(want[i]) { case lvalue: f(a[i]); break; case const_lvalue: f(std::as_const(a[i])); break; case rvalue: f(std::move(a[i])); break; default: f(std::move(std::as_const(a[i]))); } }
		void before() { Arg::copies = Arg::moves = constructions = 0; for(auto & s : seen) s = {}; }
		template<typename F> void call(F && f) {
			before();
			if(k == 0) f();
			else if(k == 1) with(0, [&](auto && x) { f(std::forward<decltype(x)>(x)); });
			else if(k == 2) { if(want[1] == rvalue) with(0, [&](auto && x) { f(std::forward<decltype(x)>(x), std::move(a[1])); }); else { want[1] = const_lvalue; with(0, [&](auto && x) { f(std::forward<decltype(x)>(x), std::as_const(a[1])); }); } }
			else { want[1] = lvalue; want[2] = rvalue; with(0, [&](auto && x) { f(std::forward<decltype(x)>(x), a[1], std::move(a[2])); }); }
		}
		template<typename F> void one(F && f) { before(); with(0, [&](auto && x) { f(std::forward<decltype(x)>(x)); }); }
		void judge(const char * p, const char * op, const R & x) {
			CHECK(p, "value", x.is(k, vals), "%s with %d arguments stores a value built from %d arguments (%d %d %d), expected (%d %d %d)", op, k, x.n, x.val[0], x.val[1], x.val[2], vals[0], vals[1], vals[2]);
			if(k) CHECK("C08", "constructed-once", constructions == 1, "%s constructed the value %d times from its arguments", op, constructions);
			CHECK("C08", "argument-copied", Arg::copies == 0 && Arg::moves == 0, "%s copied %d and moved %d of its arguments on the way", op, Arg::copies, Arg::moves);
			for(int i{0}; i < k && !poisoned; ++i) CHECK("C08", "argument", seen[i].at == &a[i] && seen[i].cat == want[i], "%s passed argument %d as %s%s, it was given as %s", op, i, names[seen[i].cat], seen[i].at == &a[i] ? "" : " (another object)", names[want[i]]);
			Hash h; h.add(op, std::strlen(op)); h.add(k); for(int i{0}; i < k; ++i) h.add(want[i]); state(h.h);
			HIT("in-place construction judged");
		}
	};
	template<bool Nx> void optionals(Rng & r) {
		using R = Rec<Nx>; using O = ptl::optional<R>;
		O o;
		for(int i{0}; i < 24 && !poisoned; ++i) {
			Givers<R> g{r}; const auto e{o.has_value()};
			switch(r.below(6)) {
				case 0: { OP("optional(in_place) with %d arguments", g.k); g.call([&](auto &&... x) { const O p{SUT(O(std::in_place, std::forward<decltype(x)>(x)...))}; CHECK("C09", "construct", p.has_value(), "optional(in_place) is empty"); if(!poisoned) g.judge("C09", "optional(in_place)", *p); }); break; }
				case 1: o.reset(); break;
				case 2: if(e) { OP("emplace from a part of the own value"); break; } [[fallthrough]];
				default: { OP("optional.emplace with %d arguments (%s)", g.k, e ? "engaged" : "empty"); g.call([&](auto &&... x) { auto & y{SUT(o.emplace(std::forward<decltype(x)>(x)...))}; CHECK("C09", "returned", o.has_value() && std::addressof(y) == std::addressof(*o), "emplace returned a wrong reference"); if(!poisoned) g.judge("C09", "optional.emplace", y); }); break; }
			}
			// the default of value_or is taken over, or left alone
			if(!poisoned) { Givers<R> d{r, 1}; d.k = 1; O p; const auto full{r.chance(1, 2)}; if(full) p.emplace(d.a[1]);
				const auto rv{r.chance(1, 2)}; OP("value_or on %s %s", full ? "an engaged" : "an empty", rv ? "rvalue" : "lvalue");
				d.one([&](auto && x) { const R y(rv ? SUT(std::move(p).value_or(std::forward<decltype(x)>(x))) : SUT(std::as_const(p).value_or(std::forward<decltype(x)>(x))));
					if(full) { const int w[]{d.vals[1]}; CHECK("C09", "value_or", y.is(1, w) && constructions == 0, "value_or of an engaged optional took the default"); CHECK("C08", "argument-copied", Arg::copies == 0 && Arg::moves == 0, "value_or copied a default it does not need"); }
					else d.judge("C09", "value_or", y); }); HIT("converting value_or"); }
		}
	}
	template<bool Nx> void variants(Rng & r) {
		using R = Rec<Nx>; using Q = Rec<Nx, 1>; using V = ptl::variant<int, R, Q, char>;
		V v;
		for(int i{0}; i < 24 && !poisoned; ++i) {
			Givers<R> g{r};
			switch(r.below(7)) {
				case 0: OP("variant(in_place_index) with %d arguments", g.k); g.call([&](auto &&... x) { const V p{SUT(V(std::in_place_index<1>, std::forward<decltype(x)>(x)...))}; CHECK("C10", "holds", p.template holds<R>(), "variant(in_place_index<1>) holds another alternative"); if(!poisoned) g.judge("C10", "variant(in_place_index)", p.template get<R>()); }); break;
				case 1: OP("variant(in_place_type) with %d arguments", g.k); g.call([&](auto &&... x) { const V p{SUT(V(std::in_place_type<R>, std::forward<decltype(x)>(x)...))}; CHECK("C10", "holds", p.template holds<R>(), "variant(in_place_type) holds another alternative"); if(!poisoned) g.judge("C10", "variant(in_place_type)", p.template get<R>()); }); break;
				case 2: case 3: OP("variant.emplace<T> with %d arguments", g.k); g.call([&](auto &&... x) { auto & y{SUT(v.template emplace<R>(std::forward<decltype(x)>(x)...))}; CHECK("C10", "returned", v.template holds<R>() && v.template get_if<R>() == &y, "emplace returned a wrong reference"); if(!poisoned) g.judge("C10", "variant.emplace<T>", y); }); break;
				case 4: OP("variant.emplace<I> with %d arguments", g.k); g.call([&](auto &&... x) { auto & y{SUT(v.template emplace<1>(std::forward<decltype(x)>(x)...))}; CHECK("C10", "returned", v.template holds<R>() && v.template get_if<R>() == &y, "emplace returned a wrong reference"); if(!poisoned) g.judge("C10", "variant.emplace<I>", y); }); break;
				case 5: SUT(v = 7); break;
				default: { Givers<Q> q{r}; OP("variant.emplace of the other alternative"); q.call([&](auto &&... x) { auto & y{SUT(v.template emplace<Q>(std::forward<decltype(x)>(x)...))}; if(!poisoned) q.judge("C10", "variant.emplace<T>", y); }); }
			}
			if(poisoned) break;
			// several visitors, given as temporaries that cannot be copied
			struct Once { int * log; Once(int * l) noexcept : log{l} {} Once(Once && o) noexcept : log{std::exchange(o.log, nullptr)} {} };
			int log[4]{}; const auto which{v.template holds<int>() ? 0 : v.template holds<R>() ? 1 : 2};
			const auto f0{[](int *) {}}; (void)f0;
			auto vis{[&](auto && w) { return SUT(std::forward<decltype(w)>(w).visit([k = Once{&log[0]}](const int &) { return ++*k.log, 0; }, [k = Once{&log[1]}](const R &) { return ++*k.log, 1; }, [k = Once{&log[2]}](const Q &) { return ++*k.log, 2; }, [k = Once{&log[3]}](const char &) { return ++*k.log, 3; })); }};
			const auto got{r.chance(1, 2) ? vis(std::as_const(v)) : r.chance(1, 2) ? vis(v) : vis(std::move(v))};
			CHECK("C10", "visit-many", got == which && log[which] == 1 && log[0] + log[1] + log[2] + log[3] == 1, "visiting alternative %d with several visitors called number %d", which, got); HIT("several move-only visitors");
		}
	}
	void variant_refs(Rng & r) {
		int a{1}; char b{2}; double c{3};
		for(int i{0}; i < 12 && !poisoned; ++i) {
			struct Once { int * log; Once(int * l) noexcept : log{l} {} Once(Once && o) noexcept : log{std::exchange(o.log, nullptr)} {} };
			const auto which{static_cast<int>(r.below(3))}; using V = ptl::variant_ref<int, char, const double>;
			const V v{which == 0 ? V{a} : which == 1 ? V{b} : V{std::as_const(c)}};
			int log[3]{}; OP("several visitors of a variant_ref to number %d", which);
			const auto got{SUT(v.visit([k = Once{&log[0]}](int & x) { return ++*k.log, static_cast<const void *>(&x); }, [k = Once{&log[1]}](char & x) { return ++*k.log, static_cast<const void *>(&x); }, [k = Once{&log[2]}](const double & x) { return ++*k.log, static_cast<const void *>(&x); }))};
			CHECK("C18", "visit-many", got == (which == 0 ? static_cast<void *>(&a) : which == 1 ? static_cast<void *>(&b) : static_cast<void *>(&c)) && log[which] == 1 && log[0] + log[1] + log[2] == 1, "visiting number %d of a variant_ref with several visitors", which); HIT("several move-only visitors"); state(static_cast<std::uint64_t>(which));
		}
	}
	void vectors(Rng & r) {
		using R = Rec<false>; ptl::vector<R> v; struct M { int n, val[3]; }; std::vector<M> m;
		for(int i{0}; i < 40 && !poisoned; ++i) {
			Givers<R> g{r}; const auto at{r.below(m.size() + 1)}; const auto full{v.size() == v.capacity()};
			const M w{g.k, {g.k > 0 ? g.vals[0] : 0, g.k > 1 ? g.vals[1] : 0, g.k > 2 ? g.vals[2] : 0}};
			switch(r.below(8)) {
				case 0: if(!m.empty()) { v.pop_back(); m.pop_back(); } break;
				case 1: if(r.chance(1, 3)) { SUT(v.shrink_to_fit()); } break;
				case 2: { struct Part { Arg a; int more; }; break; }
				case 3: case 4: OP("emplace_back with %d arguments, size %zu capacity %zu", g.k, v.size(), v.capacity()); g.call([&](auto &&... x) { auto & y{SUT(v.emplace_back(std::forward<decltype(x)>(x)...))}; CHECK("C01", "returned", &y == v.data() + m.size(), "emplace_back returned a wrong reference"); if(!poisoned) g.judge("C01", full ? "emplace_back (growing)" : "emplace_back", y); }); m.push_back(w); break;
				default: OP("emplace at %zu with %d arguments, size %zu capacity %zu", at, g.k, v.size(), v.capacity()); g.call([&](auto &&... x) { auto y{SUT(v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(at), std::forward<decltype(x)>(x)...))}; CHECK("C01", "returned", &*y == v.data() + at, "emplace returned a wrong iterator"); if(!poisoned) g.judge("C01", full ? "emplace (growing)" : "emplace", *y); }); m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), w);
			}
			CHECK("C01", "size", v.size() == m.size(), "%zu elements, expected %zu", v.size(), m.size());
			for(std::size_t j{0}; j < m.size() && !poisoned; ++j) CHECK("C01", "content", v[j].is(m[j].n, m[j].val), "element %zu is wrong", j);
		}
	}
	// arguments that are parts of an element of the same vector
	struct Holder { Arg part; int extra; Holder() noexcept : part{0}, extra{0} {} explicit Holder(const Arg & a) noexcept : part{a}, extra{1} {} Holder(const Arg & a, const int & e) noexcept : part{a}, extra{e} {} Holder(Arg && a) noexcept : part{std::move(a)}, extra{2} {} };
	void own_parts(Rng & r) {
		ptl::vector<Holder> v; std::vector<std::pair<int, int>> m;
		for(int i{0}; i < 4; ++i) { const Arg a{i + 1}; v.emplace_back(a); m.push_back({i + 1, 1}); }
		for(int i{0}; i < 40 && !poisoned; ++i) {
			const auto j{r.below(m.size())}, k{r.below(m.size())}, at{r.below(m.size() + 1)};
			OP("emplace at %zu from parts of elements %zu and %zu (size %zu, capacity %zu)", at, j, k, v.size(), v.capacity());
			switch(r.below(5)) {
				case 0: { const std::pair<int, int> w{m[j].first, 1}; SUT(v.emplace_back(std::as_const(v[j].part))); m.push_back(w); break; }
				case 1: { const std::pair<int, int> w{m[j].first, 1}; SUT(v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(at), std::as_const(v[j].part))); m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), w); break; }
				case 2: { const std::pair<int, int> w{m[j].first, m[k].second}; SUT(v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(at), std::as_const(v[j].part), std::as_const(v[k].extra))); m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), w); break; }
				case 3: { const std::pair<int, int> w{m[j].first, m[k].second}; SUT(v.emplace_back(std::as_const(v[j].part), std::as_const(v[k].extra))); m.push_back(w); break; }
				default: { const std::pair<int, int> w{m[j].first, 2}; m[j].first = -1; SUT(v.emplace(v.cbegin() + static_cast<std::ptrdiff_t>(at), std::move(v[j].part))); m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), w); }
			}
			CHECK("C01", "size", v.size() == m.size(), "%zu elements, expected %zu", v.size(), m.size()); HIT("emplace from own parts");
			for(std::size_t x{0}; x < m.size() && !poisoned; ++x) CHECK("C01", "content", v[x].part.v == m[x].first && v[x].extra == m[x].second, "element %zu is (%d, %d), expected (%d, %d)", x, v[x].part.v, v[x].extra, m[x].first, m[x].second);
			Hash h; h.add(at == m.size()); h.add(v.capacity()); h.add(j == k); state(h.h);
		}
	}
	void tuples(Rng & r) {
		using R = Rec<false>; using Q = Rec<true, 1>;
		Givers<R> g{r, 1}; g.k = 1; OP("tuple from converting arguments");
		g.one([&](auto && x) { ptl::tuple<int, R, char> t(SUT(ptl::tuple<int, R, char>(5, std::forward<decltype(x)>(x), 'x'))); if(!poisoned) g.judge("C21", "tuple(args)", t.template get<1>()); CHECK("C21", "content", t.template get<0>() == 5 && t.template get<2>() == 'x', "the other elements of the tuple are wrong"); });
		if(poisoned) return;
		Givers<Q> q{r, 1}; q.k = 1;
		q.one([&](auto && x) { ptl::tuple<Q, int> t(SUT(ptl::tuple<Q, int>(std::forward<decltype(x)>(x), 9))); if(!poisoned) q.judge("C21", "tuple(args)", t.template get<0>()); CHECK("C21", "content", t.template get<1>() == 9, "the other element of the tuple is wrong"); });
		HIT("tuple from converting arguments");
	}
	SCENARIO("optional from arguments", "C09,C08", optionals<false>, 1); SCENARIO("optional from arguments (noexcept)", "C09,C08", optionals<true>, 1);
	SCENARIO("variant from arguments", "C10,C08", variants<false>, 1); SCENARIO("variant from arguments (noexcept)", "C10,C08", variants<true>, 1);
	SCENARIO("variant_ref and several visitors", "C18", variant_refs, 1);
	SCENARIO("vector from arguments", "C01,C08", vectors, 1); SCENARIO("vector from own parts", "C01", own_parts, 1);
	SCENARIO("tuple from arguments", "C21,C08", tuples, 1);
	REQUIRE("C08", "in-place construction judged"); REQUIRE("C01", "emplace from own parts"); REQUIRE("C09", "converting value_or"); REQUIRE("C10", "several move-only visitors"); REQUIRE("C18", "several move-only visitors"); REQUIRE("C21", "tuple from converting arguments");
}
