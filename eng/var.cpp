// variant against an abstract tagged value: histories, aliasing, visitation, lifetimes, copies, faults.
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include <ptl/string.hpp>
#include <ptl/variant.hpp>
#include "../rt/elems.hpp"
#ifndef PART
#define PART 0
#endif

namespace {
	using namespace mon;
#if PART == 0
	struct Thrower { int id; };                 // converting it may throw
	struct Mixed {                              // one constructor cannot fail, another can, and so can the conversion of an argument
		int val;
		Mixed() noexcept : val{0} {}
		explicit Mixed(int v) noexcept : val{v} {}
		explicit Mixed(const Thrower & t) : val{t.id} { Life::may_throw(20); }
		Mixed(const Mixed & o) : val{o.val} { Life::may_throw(21); }
		Mixed(Mixed && o) noexcept : val{o.val} {}
		Mixed & operator=(const Mixed & o) { val = o.val; return *this; }
		Mixed & operator=(Mixed && o) noexcept { val = o.val; return *this; }
	};
	struct Converts { int id; operator int() const { Life::may_throw(22); return id; } };
	struct Node;
	struct Deep { // owns a nested variant; standard layout
		Node * p{nullptr};
		Deep() noexcept {}
		Deep(const Deep & o);
		Deep(Deep && o) noexcept : p{o.p} { o.p = nullptr; }
		Deep & operator=(const Deep & o) { Deep t{o}; std::swap(p, t.p); return *this; }
		Deep & operator=(Deep && o) noexcept { std::swap(p, o.p); return *this; }
		~Deep() noexcept;
	};
	using A = Tr<0>; using B = int; using C = Tr<1, 4, 155>; using D = std::string; using E = ptl::string; using F = Tr<2>; using G = Mixed; using H = Deep;
	using V = ptl::variant<A, B, C, D, E, F, G, H>;
	struct Node { V v; };
	Deep::Deep(const Deep & o) : p{o.p ? new Node{o.p->v} : nullptr} {}
	Deep::~Deep() noexcept { delete p; }

	// an abstract value: alternative, number, and (for Deep) the nested value
	struct M { int alt{0}; int val{0}; std::vector<M> in; bool operator==(const M & o) const { return alt == o.alt && val == o.val && in == o.in; } };
	std::string show(const M & m) { std::string s{"#" + std::to_string(m.alt) + ":" + std::to_string(m.val)}; if(!m.in.empty()) s += "(" + show(m.in[0]) + ")"; return s; }

	A make(const A *, int id) { return A{id}; } C make(const C *, int id) { return C{id}; } F make(const F *, int id) { return F{id}; }
	int make(const int *, int id) { return id; } D make(const D *, int id) { return El<D>::make(id); } E make(const E *, int id) { const auto s{El<D>::make(id)}; return E{std::string_view{s}}; } G make(const G *, int id) { return G{id}; }
	H make(const H *, int id) { H h; if(id % 3) { h.p = new Node{V{static_cast<int>(id)}}; } return h; }
	M model(const V & v);
	template<typename T> int num(const T & t) { return El<T>::get(t); }
	int num(const E & t) { return El<D>::get(std::string(t.data(), t.size())); } int num(const G & g) { return g.val; } int num(const H & h) { return h.p ? 1 : 0; }
	template<typename T> constexpr bool tracked{std::is_same_v<T, A> || std::is_same_v<T, C> || std::is_same_v<T, F>};
	template<typename T> constexpr int index{std::is_same_v<T, A> ? 0 : std::is_same_v<T, B> ? 1 : std::is_same_v<T, C> ? 2 : std::is_same_v<T, D> ? 3 : std::is_same_v<T, E> ? 4 : std::is_same_v<T, F> ? 5 : std::is_same_v<T, G> ? 6 : 7};
	template<typename T> M model_of(const T & t) { M m; m.alt = index<T>; m.val = num(t); if constexpr(std::is_same_v<T, H>) if(t.p) m.in.push_back(model(t.p->v)); return m; }
	template<typename T> M moved(const M & m) { auto w{m}; if constexpr(tracked<T>) w.val = moved_from; else if constexpr(std::is_same_v<T, D>) w.val = 0; else if constexpr(std::is_same_v<T, H>) { w.val = 0; w.in.clear(); } return w; }
	template<typename Fn> void at(int alt, Fn && fn) { // calls fn with a null pointer to alternative alt
		switch(alt) { case 0: fn(static_cast<A *>(nullptr)); break; case 1: fn(static_cast<B *>(nullptr)); break; case 2: fn(static_cast<C *>(nullptr)); break; case 3: fn(static_cast<D *>(nullptr)); break; case 4: fn(static_cast<E *>(nullptr)); break; case 5: fn(static_cast<F *>(nullptr)); break; case 6: fn(static_cast<G *>(nullptr)); break; default: fn(static_cast<H *>(nullptr)); }
	}
	M model(const V & v) { M m; m.alt = -1; for(int i{0}; i < 8; ++i) at(i, [&](auto * t) { using T = std::remove_pointer_t<decltype(t)>; if(const T * p{v.get_if<T>()}) m = model_of(*p); }); return m; }
	std::size_t trackeds(const M & m) { std::size_t n{m.alt == 0 || m.alt == 2 || m.alt == 5}; for(auto & x : m.in) n += trackeds(x); return n; }

	struct Counting { int calls{0}; template<typename T> Counting * operator()(T &) { ++calls; return this; } }; // state changes with every call
	struct Probe { // records the reference a visitor receives
		struct Seen { int calls{0}, cat{0}, alt{-1}; const void * p{nullptr}; } * seen;
		template<typename T> int operator()(T & t) const { return rec(t, 1); }
		template<typename T> int operator()(const T & t) const { return rec(t, 2); }
		template<typename T, typename = std::enable_if_t<!std::is_lvalue_reference_v<T> && !std::is_const_v<T>>> int operator()(T && t) const { return rec(t, 3); }
		template<typename T> int operator()(const T && t) const { return rec(t, 4); }
		template<typename T> int rec(T & t, int cat) const { ++seen->calls; seen->cat = cat; seen->alt = index<std::remove_const_t<T>>; seen->p = &t; return 1000 + seen->alt; }
	};

	struct Box { V v; M m; };
	struct Run {
		Rng & r; bool faults; std::vector<Box> pool; int next_id{1}; const char * last_op{"start"};
		explicit Run(Rng & r, bool faults) : r{r}, faults{faults} { pool.reserve(4); for(int i{0}; i < 3; ++i) { pool.emplace_back(); pool.back().m = model_of(A{}); } }
		int id() { return next_id++; }
		bool is(const V & v, const M & m) { return model(v) == m; }

		void check_box(Box & b, const char * op) {
			if(poisoned) return;
			V & v{b.v}; const V & c{v};
			int held{0};
			for(int i{0}; i < 8 && !poisoned; ++i) at(i, [&](auto * t) {
				using T = std::remove_pointer_t<decltype(t)>;
				const bool h{i == b.m.alt};
				held += c.template holds<T>();
				CHECK("C10", "holds", c.template holds<T>() == h && (c.template get_if<T>() != nullptr) == h && (v.template get_if<T>() != nullptr) == h, "after %s: alternative %d: holds %d, get_if %p, expected %s", op, i, c.template holds<T>(), (const void *)c.template get_if<T>(), show(b.m).c_str());
				if(mon::stop()) return;
				if(h) {
					const T * p{c.template get_if<T>()};
					if(tracked<T> && !Life::alive(p)) { CHECK("C07", "dead-value", false, "after %s: the value of a variant is not alive", op); return; }
					CHECK("C10", "get", static_cast<const void *>(p) == static_cast<const void *>(&c) && v.template get_if<T>() == p && &v.template get<T>() == p && &c.template get<T>() == p, "after %s: get and get_if of alternative %d disagree", op, i);
					T && rv{std::move(v).template get<T>()}; const T && cv{std::move(c).template get<T>()};
					CHECK("C10", "get-rvalue", &rv == p && &cv == p, "after %s: rvalue get of alternative %d designates another object", op, i);
					const auto now{model_of(*p)};
					CHECK("C10", "value", now == b.m, "after %s: %s, expected %s", op, show(now).c_str(), show(b.m).c_str());
				} else if(r.chance(1, 8)) {
					bool threw{false}; try { (void)c.template get<T>(); } catch(const std::bad_variant_access &) { threw = true; }
					CHECK("C10", "get-other", threw, "after %s: get of alternative %d returns although %s is held", op, i, show(b.m).c_str());
				}
			});
			CHECK("C10", "exactly-one", held == 1, "after %s: %d alternatives are held", op, held);
			if(poisoned) return;
			for(int how{1}; how <= 4; ++how) {
				Probe::Seen s; int res{0};
				switch(how) { case 1: res = v.visit(Probe{&s}); break; case 2: res = c.visit(Probe{&s}); break; case 3: res = std::move(v).visit(Probe{&s}); break; default: res = std::move(c).visit(Probe{&s}); }
				CHECK("C10", "visit", s.calls == 1 && s.alt == b.m.alt && res == 1000 + s.alt, "after %s: the visitor ran %d times, last for alternative %d, returned %d, expected %s", op, s.calls, s.alt, res, show(b.m).c_str());
				CHECK("C10", "visit-object", s.p == static_cast<const void *>(&v), "after %s: the visitor saw an object at %p, the variant is at %p", op, s.p, (const void *)&v);
				CHECK("C10", "visit-category", s.cat == how, "after %s: the visitor got value category %d, expected %d", op, s.cat, how);
			}
			{ // several visitors, also one returning a reference
				int calls{0}, which{-1};
				const auto res{v.visit([&](A & a) { ++calls; which = 0; return static_cast<const void *>(&a); }, [&](int & a) { ++calls; which = 1; return static_cast<const void *>(&a); }, [&](C & a) { ++calls; which = 2; return static_cast<const void *>(&a); }, [&](D & a) { ++calls; which = 3; return static_cast<const void *>(&a); },
					[&](E & a) { ++calls; which = 4; return static_cast<const void *>(&a); }, [&](F & a) { ++calls; which = 5; return static_cast<const void *>(&a); }, [&](G & a) { ++calls; which = 6; return static_cast<const void *>(&a); }, [&](H & a) { ++calls; which = 7; return static_cast<const void *>(&a); })};
				CHECK("C10", "visit-overloads", calls == 1 && which == b.m.alt && res == static_cast<const void *>(&v), "after %s: overloaded visitors: %d calls, alternative %d, expected %s", op, calls, which, show(b.m).c_str());
				int sink{0};
				Counting cv; const auto a1{v.visit(cv)}, a2{c.visit(cv)}; CHECK("C10", "visit-state", cv.calls == 2 && a1 == &cv && a2 == &cv, "visit called another visitor than the one given: it saw %d of 2 calls", cv.calls);
				int & ref{v.visit([&](auto &) -> int & { return sink; })};
				CHECK("C10", "visit-reference", &ref == &sink, "after %s: a visitor's reference result was not returned", op);
			}
		}
		void check_all(const char * op) {
			std::size_t total{0}; Hash h; h.add(op, std::strlen(op));
			for(auto & b : pool) { check_box(b, op); total += trackeds(b.m); h.add(b.m.alt); h.add(b.m.in.size()); h.add(b.m.val == moved_from); }
			CHECK("C07", "live-count", Life::live == total, "after %s: %zu objects are alive, the variants hold %zu", op, Life::live, total);
			state(h.h);
		}
		template<typename Fn>
		void go(Box & b, const char * op, const M & want, int copies, Fn && f) {
			if(poisoned) return;
			last_op = op;
			OP("%s on %s -> %s", op, show(b.m).c_str(), show(want).c_str());
			const auto live{Life::live}; const auto blocks{heap::live_blocks};
			const bool alloc{r.chance(1, 2)};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(alloc) heap::fail_in = k; else Life::throw_in = k; }
				Life::n_copied = 0;
				try { f(); }
				catch(const Injected &) { threw = true; CHECK("C11", "exception", Life::fired, "%s: wrong exception", op); }
				catch(const std::bad_alloc &) { threw = true; CHECK("C11", "exception", heap::fired, "%s: bad_alloc without a refused allocation", op); }
				const auto fired{Life::fired || heap::fired};
				Life::throw_in = heap::fail_in = -1;
				if(!faults) { CHECK("C10", "exception", !threw, "%s: unexpected exception", op); CHECK("C08", "hidden-copy", Life::n_copied <= copies, "%s made %d copies, at most %d are needed", op, Life::n_copied, copies); break; }
				if(!threw) { CHECK("C11", "swallowed", !fired, "%s: the failure at point %ld was swallowed", op, k); break; }
				if(alloc) HIT("variant allocation faults judged"); else HIT("variant element faults judged");
				CHECK("C07", "live-after-fault", Life::live == live, "%s failed at point %ld: %zu objects alive before, %zu after", op, k, live, Life::live);
				const auto now{poisoned ? M{} : model(b.v)};
				CHECK("C11", "changed", now == b.m, "%s failed at point %ld: %s, expected %s", op, k, show(now).c_str(), show(b.m).c_str());
				CHECK("C11", "leak", heap::live_blocks == blocks, "%s failed at point %ld: %zu blocks before, %zu after", op, k, blocks, heap::live_blocks);
				if(mon::stop()) return;
				Hash h; h.add(op, std::strlen(op)); h.add(k); h.add(b.m.alt); h.add(want.alt); h.add(alloc); state(h.h);
				if(k > 200) harness_error("%s never completes", op);
			}
			if(!poisoned) b.m = want;
		}
		template<typename Fn>
		void nofault(Box & b, const char * op, const M & want, Fn && f) { const auto old{faults}; faults = false; heap::fail_all = old; go(b, op, want, 0, f); heap::fail_all = false; faults = old; }
		template<typename Fn>
		void build(const char * op, const M & want, int copies, Fn && f) {
			if(poisoned) return;
			auto & b{pool[r.below(pool.size())]};
			last_op = op; OP("construct %s -> %s", op, show(want).c_str());
			const auto live{Life::live}; const auto blocks{heap::live_blocks}; const bool alloc{r.chance(1, 2)};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(alloc) heap::fail_in = k; else Life::throw_in = k; }
				Life::n_copied = 0;
				try { f([&](V && v) {
					Life::throw_in = heap::fail_in = -1;
					if(!faults) CHECK("C08", "hidden-copy", Life::n_copied <= copies, "%s made %d copies, at most %d are needed", op, Life::n_copied, copies);
					CHECK("C10", "construct", is(v, want), "%s: %s, expected %s", op, show(model(v)).c_str(), show(want).c_str());
					if(r.chance(1, 2) && !poisoned) { SUT(b.v = std::move(v)); b.m = want; }
				}); } catch(const Injected &) { threw = true; } catch(const std::bad_alloc &) { threw = true; }
				Life::throw_in = heap::fail_in = -1;
				if(!faults) { CHECK("C10", "exception", !threw, "%s: unexpected exception", op); break; }
				if(!threw) { CHECK("C11", "swallowed", !(Life::fired || heap::fired), "%s swallowed a failure", op); break; }
				HIT("variant constructor faults judged");
				CHECK("C11", "ctor-leak", heap::live_blocks == blocks && Life::live == live, "%s failed at point %ld and left something behind", op, k);
				if(mon::stop()) return;
			}
		}
		void step() {
			auto & b{pool[r.below(pool.size())]}; auto & o{pool[r.below(pool.size())]};
			V & v{b.v}; const M m{b.m};
			const auto k{id()};
			const auto self{[&](const V & y) { CHECK("C10", "returned", &y == &v, "a wrong reference was returned"); }};
			const auto what{r.below(30)};
			at(static_cast<int>(r.below(8)), [&](auto * tp) {
				using T = std::remove_pointer_t<decltype(tp)>;
				const auto want{[&] { T t(make(tp, k)); return model_of(t); }()};
				switch(what) {
					case 0: case 1: { T t(make(tp, k)); go(b, "= const T &", want, tracked<T>, [&] { self(SUT(v = std::as_const(t))); }); CHECK("C08", "lvalue-changed", poisoned || model_of(t) == want, "= const T & changed its argument"); HIT("assign value copy"); break; }
					case 2: { T t(make(tp, k)); go(b, "= T &", want, tracked<T>, [&] { self(SUT(v = t)); }); break; }
					case 3: go(b, "= T &&", want, 0, [&] { T t(make(tp, k)); self(SUT(v = std::move(t))); if(tracked<T>) CHECK("C08", "rvalue-kept", model_of(t) == moved<T>(want), "= T && did not move its argument"); }); HIT("assign value move"); break;
					case 4: go(b, "emplace<T>(T &&)", want, 0, [&] { T t(make(tp, k)); T & x{SUT(v.template emplace<T>(std::move(t)))}; CHECK("C10", "returned", &x == v.template get_if<T>(), "emplace returned a wrong reference"); }); HIT("emplace type"); break;
					case 5: { T t(make(tp, k)); go(b, "emplace<T>(const T &)", want, tracked<T>, [&] { SUT(v.template emplace<T>(std::as_const(t))); }); break; }
					case 6: go(b, "emplace<I>(T &&)", want, 0, [&] { T t(make(tp, k)); T & x{SUT(v.template emplace<static_cast<std::size_t>(index<T>)>(std::move(t)))}; CHECK("C10", "returned", &x == v.template get_if<T>(), "emplace returned a wrong reference"); }); HIT("emplace index"); break;
					case 7: if constexpr(tracked<T> || std::is_same_v<T, int> || std::is_same_v<T, G>) { go(b, "emplace<T>(int)", want, 0, [&] { T & x{SUT(v.template emplace<T>(k))}; CHECK("C10", "returned", &x == v.template get_if<T>(), "emplace returned a wrong reference"); }); HIT("emplace args"); } break;
					case 8: { const auto w{[&] { T t{}; return model_of(t); }()}; go(b, "emplace<T>()", w, 0, [&] { SUT(v.template emplace<T>()); }); break; }
					case 9: if(const T * p{std::as_const(v).template get_if<T>()}) { go(b, "= own value", m, static_cast<int>(trackeds(m)), [&] { self(SUT(v = *v.template get_if<T>())); }); HIT("assign own value"); (void)p; } break;
					case 10: { T t(make(tp, k)); build("variant(const T &)", want, tracked<T>, [&](auto use) { use(SUT(V(std::as_const(t)))); }); break; }
					case 11: build("variant(T &&)", want, 0, [&](auto use) { T t(make(tp, k)); use(SUT(V(std::move(t)))); }); break;
					case 12: build("variant(in_place_index)", want, 0, [&](auto use) { T t(make(tp, k)); use(SUT(V(std::in_place_index<static_cast<std::size_t>(index<T>)>, std::move(t)))); }); break;
					case 13: { T t(make(tp, k)); build("variant(in_place_type)", want, tracked<T>, [&](auto use) { use(SUT(V(std::in_place_type<T>, std::as_const(t)))); }); break; }
					case 14: if(m.alt == index<T> && !poisoned) { last_op = "write"; OP("write through an accessor"); T t(make(tp, k)); switch(r.below(3)) { case 0: v.template get<T>() = t; break; case 1: *v.template get_if<T>() = t; break; default: v.visit([&](auto & x) { if constexpr(std::is_same_v<std::decay_t<decltype(x)>, T>) x = t; }); } b.m = want; HIT("write through"); } break;
					case 15: if(m.alt == index<T> && !poisoned) { last_op = "take value"; OP("take the value %s", show(m).c_str()); Life::n_copied = 0; { T t(SUT(std::move(v).template get<T>())); CHECK("C10", "take", model_of(t) == m, "taking the value yields %s, expected %s", show(model_of(t)).c_str(), show(m).c_str()); } CHECK("C08", "hidden-copy", Life::n_copied == 0, "taking the value copied"); b.m = std::is_same_v<T, E> ? model(v) : moved<T>(m); if(tracked<T>) CHECK("C08", "source-not-moved", is(v, b.m), "taking the value left the source unmoved"); HIT("take value"); } break;
					case 16: if(m.alt == index<T> && !poisoned) { last_op = "visit rvalue"; OP("move out of a visitor"); Life::n_copied = 0; std::move(v).visit([&](auto && x) { using X = decltype(x); if constexpr(std::is_same_v<std::decay_t<X>, T>) { T t(std::forward<X>(x)); CHECK("C10", "take", model_of(t) == m, "a visitor of an rvalue received %s, expected %s", show(model_of(t)).c_str(), show(m).c_str()); } }); CHECK("C08", "hidden-copy", Life::n_copied == 0, "visiting an rvalue copied"); b.m = std::is_same_v<T, E> ? model(v) : moved<T>(m); HIT("take value by visitor"); } break;
					default: break;
				}
			});
			switch(what) {
				case 17: case 18: { const auto w{o.m}; const V * src{&o.v}; go(b, &o == &b ? "= self" : "= copy", w, &o != &b ? static_cast<int>(trackeds(w)) : 0, [&] { self(SUT(v = *src)); }); if(&o == &b) HIT("self copy-assign"); else if(m.alt == w.alt) HIT("copy assign same alternative"); else HIT("copy assign other alternative"); break; }
				case 19: { const auto w{o.m}; V * src{&o.v}; if(&o == &b) { nofault(b, "= self &&", w, [&] { self(SUT(v = std::move(*src))); }); HIT("self move-assign"); break; }
					nofault(b, "= move", w, [&] { self(SUT(v = std::move(*src))); }); if(!poisoned) at(w.alt, [&](auto * t) { using T = std::remove_pointer_t<decltype(t)>; CHECK("C10", "moved-from-alternative", o.v.template holds<T>(), "a moved-from variant changed its alternative"); o.m = std::is_same_v<T, E> ? model(o.v) : moved<T>(w); }); HIT("move assign"); break; }
				case 20: case 21: { const auto w{o.m}; V * src{&o.v}; const auto how{r.below(3)}; if(how == 2 && &o == &b) break;
					nofault(b, &o == &b ? "swap self" : "swap", w, [&] { if(how == 0) SUT(v.swap(*src)); else if(how == 1) { using std::swap; SUT(swap(v, *src)); } else SUT(std::swap(v, *src)); });
					if(&o != &b) { o.m = m; if(m.alt == w.alt) HIT("swap same alternative"); else HIT("swap other alternative"); } else HIT("self swap"); break; }
				case 22: build("variant(copy)", m, static_cast<int>(trackeds(m)), [&](auto use) { use(SUT(V(std::as_const(v)))); }); HIT("construct copy"); break;
				case 23: if(!poisoned) { last_op = "move construction"; OP("move construct from %s", show(m).c_str()); Life::n_copied = 0; { V y{SUT(V(std::move(v)))}; CHECK("C10", "construct", is(y, m), "move construction: %s, expected %s", show(model(y)).c_str(), show(m).c_str()); CHECK("C08", "hidden-copy", Life::n_copied == 0, "move construction copied"); }
					at(m.alt, [&](auto * t) { using T = std::remove_pointer_t<decltype(t)>; b.m = std::is_same_v<T, E> ? model(v) : moved<T>(m); }); HIT("construct move"); } break;
				case 24: build("variant()", model_of(A{}), 0, [&](auto use) { use(SUT(V())); }); break;
				case 25: case 26: if(!poisoned) { // nest: a copy of another variant becomes the inner value
					const bool deep{o.m.in.size() && o.m.in[0].in.size() && o.m.in[0].in[0].in.size()};
					if(deep) break;
					H h; h.p = new Node{o.v}; M w{model_of(h)}; go(b, "= nested", w, 0, [&] { if(faults) { self(SUT(v = std::as_const(h))); } else { H t{h}; Life::n_copied = 0; self(SUT(v = std::move(t))); } }); HIT("nest"); } break;
				case 27: if(!m.in.empty()) { const auto w{m.in[0]}; go(b, "= own nested variant", w, static_cast<int>(trackeds(w)), [&] { self(SUT(v = std::as_const(v.get<H>().p->v))); }); HIT("assign own nested variant"); } break;
				case 28: if(!m.in.empty()) at(m.in[0].alt, [&](auto * t) { using T = std::remove_pointer_t<decltype(t)>; const auto w{m.in[0]}; go(b, "= value inside own value", w, static_cast<int>(trackeds(w)), [&] { self(SUT(v = std::as_const(v.get<H>().p->v).template get<T>())); }); HIT("assign value inside own value"); }); break;
				case 29: { M w; w.alt = 6; w.val = k; const auto how{r.below(3)};
					if(how == 0) { const Thrower t{k}; go(b, "emplace<Mixed>(may throw)", w, 0, [&] { SUT(v.emplace<G>(t)); }); HIT("emplace throwing constructor"); }
					else if(how == 1) { const Converts t{k}; go(b, "emplace<Mixed>(throwing conversion)", w, 0, [&] { SUT(v.emplace<G>(t)); }); HIT("emplace throwing conversion"); }
					else { M x; x.alt = 1; x.val = k; const Converts t{k}; go(b, "emplace<int>(throwing conversion)", x, 0, [&] { SUT(v.emplace<int>(t)); }); HIT("emplace throwing conversion"); } break; }
				default: break;
			}
		}
		void history() {
			const auto steps{r.range(10, 50)};
			for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); if(!poisoned) check_all(last_op); }
			if(!mon::stop()) { { heap::Sut g; pool.clear(); } CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their variants", Life::live); }
			else new std::vector<Box>(std::move(pool));
		}
	};
	void plain(Rng & r) { Run run{r, false}; run.history(); }
	void faulty(Rng & r) { Run run{r, true}; run.history(); }
	SCENARIO("variant history", "C10,C07,C08", plain, 3);
	SCENARIO("variant faults", "C11,C07", faulty, 2);
	REQUIRE("C10", "assign own value"); REQUIRE("C10", "assign own nested variant"); REQUIRE("C10", "assign value inside own value"); REQUIRE("C10", "self copy-assign"); REQUIRE("C10", "self move-assign"); REQUIRE("C10", "self swap"); REQUIRE("C10", "swap other alternative"); REQUIRE("C10", "swap same alternative"); REQUIRE("C10", "copy assign other alternative"); REQUIRE("C10", "emplace index"); REQUIRE("C10", "take value by visitor");
	REQUIRE("C11", "variant allocation faults judged"); REQUIRE("C11", "variant element faults judged"); REQUIRE("C11", "variant constructor faults judged"); REQUIRE("C11", "emplace throwing constructor"); REQUIRE("C11", "emplace throwing conversion");
	REQUIRE("C08", "take value"); REQUIRE("C08", "assign value move");
#elif PART == 1
	// as many alternatives as the index allows
	template<std::size_t N> struct Alt { int val; Alt() noexcept : val{0} {} explicit Alt(int v) noexcept : val{v} {} friend bool operator==(const Alt & a, const Alt & b) noexcept { return a.val == b.val; } };
	template<typename> struct Make;
	template<std::size_t... I> struct Make<std::index_sequence<I...>> { using type = ptl::variant<Alt<I>...>; };
		constexpr std::size_t N{WIDE};
	using W = Make<std::make_index_sequence<N>>::type;
	struct Get { int * calls; template<std::size_t I> long operator()(const Alt<I> & a) const { ++*calls; return static_cast<long>(I) * 100000 + a.val; } };
	long read(const W & w) { int calls{0}; const auto v{w.visit(Get{&calls})}; CHECK("C10", "visit", calls == 1, "the visitor of a 254-alternative variant ran %d times", calls); return v; }
	constexpr std::size_t odd[]{0, 1, 127, 128, N - 2, N - 1};
	template<std::size_t I>
	void put(W & w, int val) {
		w = W{std::in_place_index<I>, val};
		CHECK("C10", "holds", w.template holds<Alt<I>>() && w.template get_if<Alt<I>>() && w.template get<Alt<I>>().val == val, "alternative %zu of %zu is not held after storing it", I, N);
	}
	void store(std::size_t k, W & w, int val) {
		switch(k) { case 0: put<odd[0]>(w, val); break; case 1: put<odd[1]>(w, val); break; case 2: put<odd[2]>(w, val); break; case 3: put<odd[3]>(w, val); break; case 4: put<odd[4]>(w, val); break; default: put<odd[5]>(w, val); }
	}
	template<std::size_t I> int held(const W & w) { return w.holds<Alt<I>>() ? static_cast<int>(I) : -1; }
		template<std::size_t... I> int which_of(std::index_sequence<I...>, const W & w) { int n{0}, k{-1}; ((w.holds<Alt<I>>() ? (++n, k = static_cast<int>(I)) : 0), ...); CHECK("C10", "exactly-one", n == 1, "%d of 254 alternatives are held", n); return k; }
	void wide(Rng & r) {
		using Ix = std::make_index_sequence<N>;
		W pool[3]; long m[3]{0, 0, 0};
		for(int step{0}; step < 60 && !poisoned; ++step) {
			const auto b{r.below(3)}, o{r.below(3)};
			switch(r.below(6)) {
				case 0: case 1: { const auto k{r.below(6)}; const auto x{static_cast<int>(r.below(1000))}; OP("store alternative %zu", odd[k]); store(k, pool[b], x); m[b] = static_cast<long>(odd[k]) * 100000 + x; HIT("wide store"); break; }
								case 3: OP("move assign"); pool[b] = std::move(pool[o]); m[b] = m[o]; break;
				case 4: OP("swap"); std::swap(pool[b], pool[o]); std::swap(m[b], m[o]); break;
				
#ifdef WIDE_COPY
				default: { OP("copy"); W t{std::as_const(pool[o])}; CHECK("C10", "construct", read(t) == m[o], "a copy of alternative %ld reads %ld", m[o], read(t)); W u{std::move(t)}; CHECK("C10", "construct", read(u) == m[o], "a moved copy of alternative %ld reads %ld", m[o], read(u)); }
#else
				default: { OP("move"); W u{std::move(pool[o])}; CHECK("C10", "construct", read(u) == m[o], "moving alternative %ld reads %ld", m[o], read(u)); }
#endif
			}
			for(int i{0}; i < 3 && !poisoned; ++i) { CHECK("C10", "value", read(pool[i]) == m[i], "a 254-alternative variant reads %ld, expected %ld", read(pool[i]), m[i]); CHECK("C10", "holds", which_of(Ix{}, pool[i]) == m[i] / 100000, "wrong alternative held"); Hash h; h.add(m[i] / 100000); h.add(254); state(h.h); }
		}
	}
	SCENARIO("wide variant history", "C10", wide, 1);
	REQUIRE("C10", "wide store");
#elif PART == 2
	// 254 alternatives; only what does not instantiate every alternative's dispatch
	template<std::size_t N> struct Alt { int val; Alt() noexcept : val{0} {} explicit Alt(int v) noexcept : val{v} {} };
	template<typename> struct Make;
	template<std::size_t... I> struct Make<std::index_sequence<I...>> { using type = ptl::variant<Alt<I>...>; };
	using W = Make<std::make_index_sequence<254>>::type;
	template<std::size_t I>
	void one(int val, bool by_type) {
		OP("alternative %zu of 254", I);
		alignas(W) unsigned char mem[sizeof(W) + 16];
		std::memset(mem, 0xA5, sizeof mem);
		const W & w{by_type ? *new(mem) W(std::in_place_type<Alt<I>>, val) : *new(mem) W(std::in_place_index<I>, val)}; // trivial content: never destroyed
		const auto is{[&](auto * p) { using T = std::remove_pointer_t<decltype(p)>; const bool h{std::is_same_v<T, Alt<I>>}; CHECK("C10", "holds", w.template holds<T>() == h && (w.template get_if<T>() != nullptr) == h, "alternative %zu of 254: another alternative claims to be held", I); }};
		is(static_cast<Alt<0> *>(nullptr)); is(static_cast<Alt<1> *>(nullptr)); is(static_cast<Alt<126> *>(nullptr)); is(static_cast<Alt<127> *>(nullptr)); is(static_cast<Alt<128> *>(nullptr)); is(static_cast<Alt<129> *>(nullptr)); is(static_cast<Alt<252> *>(nullptr)); is(static_cast<Alt<253> *>(nullptr));
		CHECK("C10", "get", w.template get<Alt<I>>().val == val && static_cast<const void *>(&w.template get<Alt<I>>()) == static_cast<const void *>(mem), "alternative %zu of 254 does not hold its value", I);
		bool threw{false}; try { (void)w.template get<Alt<(I + 100) % 254>>(); } catch(const std::bad_variant_access &) { threw = true; }
		CHECK("C10", "get-other", threw, "get of another alternative than %zu returns", I);
		for(std::size_t i{sizeof(W)}; i < sizeof mem; ++i) CHECK("C10", "outside", mem[i] == 0xA5, "constructing alternative %zu wrote outside the variant", I);
		Hash h; h.add(I); h.add(by_type); state(h.h);
	}
	void ends(Rng & r) { const auto v{static_cast<int>(r.next())}; const bool t{r.chance(1, 2)}; one<0>(v, t); one<1>(v, t); one<127>(v, t); one<128>(v, t); one<252>(v, t); one<253>(v, t); HIT("ends of 254 alternatives"); }
	SCENARIO("variant with 254 alternatives", "C10", ends, 1);
	REQUIRE("C10", "ends of 254 alternatives");
#elif PART == 3
	template<int I> struct Num { int v; }; } namespace mon { template<int I> struct El<Num<I>> : Plain { static Num<I> make(int id) { return {id}; } static int get(const Num<I> & n) { return n.v; } static const char * name() { return "number"; } }; } namespace {
	// alternatives whose traits invite shortcuts: plain bytes, padding, own address, odd defaults, constructors that take lists
	template<typename... T> struct Small {
		using V = ptl::variant<T...>; static constexpr std::size_t N{sizeof...(T)};
		struct M { int alt, val; bool operator==(const M & o) const { return alt == o.alt && val == o.val; } };
		struct Box { V v; M m; };
		Rng & r; std::vector<Box> pool; int next_id{1}; const char * last_op{"start"};
		explicit Small(Rng & r) : r{r} { pool.reserve(4); for(int i{0}; i < 3; ++i) { pool.emplace_back(); pool.back().m = M{0, first()}; } }
		static int first() { return std::get<0>(std::tuple<El<T>...>{}).dflt; }
		template<typename Fn> static void at(int alt, Fn && fn) { int i{0}; ((i++ == alt ? (fn(static_cast<T *>(nullptr), static_cast<std::size_t>(i - 1)), 0) : 0), ...); }
		struct Reader { int * calls; const void ** where; template<typename X> M operator()(X & x) const { using Y = std::remove_const_t<X>; ++*calls; *where = std::addressof(x); int i{0}, k{-1}; ((std::is_same_v<T, Y> ? (k = i++) : i++), ...); return {k, El<Y>::get(x)}; } };
		void check(Box & b, const char * op) {
			if(poisoned) return;
			V & v{b.v}; const V & c{v}; int held{0}, k{0};
			((c.template holds<T>() ? ++held : 0), ...);
			CHECK("C10", "exactly-one", held == 1, "after %s: %d alternatives are held", op, held);
			([&] { const bool h{k++ == b.m.alt}; CHECK("C10", "holds", c.template holds<T>() == h && (c.template get_if<T>() != nullptr) == h && (v.template get_if<T>() != nullptr) == h, "after %s: alternative %d: holds %d, expected #%d", op, k - 1, c.template holds<T>(), b.m.alt);
				if(h && !poisoned) CHECK("C10", "get", static_cast<const void *>(c.template get_if<T>()) == static_cast<const void *>(&c) && std::addressof(v.template get<T>()) == c.template get_if<T>() && El<T>::get(c.template get<T>()) == b.m.val, "after %s: alternative %d holds %d, expected %d", op, k - 1, El<T>::get(c.template get<T>()), b.m.val); }(), ...);
			int calls{0}; const void * p{nullptr};
			const auto got{r.chance(1, 2) ? c.visit(Reader{&calls, &p}) : v.visit(Reader{&calls, &p})};
			CHECK("C10", "visit", calls == 1 && got == b.m && p == static_cast<const void *>(&c), "after %s: a visitor ran %d times and saw #%d:%d, expected #%d:%d", op, calls, got.alt, got.val, b.m.alt, b.m.val);
		}
		void step() {
			auto & b{pool[r.below(3)]}; auto & o{pool[r.below(3)]}; V & v{b.v}; const auto m{b.m};
			const int alt{r.chance(1, 3) ? m.alt : static_cast<int>(r.below(N))}, id{next_id++};
			const auto what{r.below(14)};
			OP("operation %zu: #%d:%d, other #%d:%d, alternative %d", what, m.alt, m.val, o.m.alt, o.m.val, alt);
			switch(what) {
				case 0: case 1: last_op = "= value"; at(alt, [&](auto * t, std::size_t) { using X = std::remove_pointer_t<decltype(t)>; X x(El<X>::make(id)); if(r.chance(1, 2)) SUT(v = std::as_const(x)); else SUT(v = std::move(x)); b.m = {alt, El<X>::get(El<X>::make(id))}; }); break;
				case 2: case 3: last_op = "emplace"; at(alt, [&](auto * t, std::size_t) { using X = std::remove_pointer_t<decltype(t)>; X x(El<X>::make(id)); X & y{r.chance(1, 2) ? SUT(v.template emplace<X>(std::as_const(x))) : SUT(v.template emplace<X>(std::move(x)))}; CHECK("C10", "returned", static_cast<void *>(std::addressof(y)) == static_cast<void *>(&v), "emplace returned another object"); b.m = {alt, El<X>::get(El<X>::make(id))}; }); break;
				case 4: last_op = "emplace()"; at(alt, [&](auto * t, std::size_t) { using X = std::remove_pointer_t<decltype(t)>; SUT(v.template emplace<X>()); b.m = {alt, El<X>::dflt}; }); HIT("small emplace default"); break;
				case 5: { last_op = "construct value"; V w{at_value(alt, id, b.m)}; if(r.chance(1, 2)) SUT(v = std::move(w)); else SUT(v = std::as_const(w)); break; }
				case 6: { last_op = "copy construct"; V w(std::as_const(o.v)); Box c{std::move(w), o.m}; check(c, "copy construction"); V z(std::move(c.v)); Box d{std::move(z), o.m}; check(d, "move construction"); break; }
				case 7: case 8: last_op = &b == &o ? "= self" : "= copy"; { const V * s{&o.v}; V & y{SUT(v = *s)}; CHECK("C10", "returned", &y == &v, "a wrong reference was returned"); b.m = o.m; } HIT("small copy assign"); break;
				case 9: last_op = &b == &o ? "= self &&" : "= move"; { V * s{&o.v}; SUT(v = std::move(*s)); b.m = o.m; if(&b != &o) at(o.m.alt, [&](auto * t, std::size_t) { using X = std::remove_pointer_t<decltype(t)>; o.m.val = El<X>::moved(o.m.val); }); } break;
				case 10: case 11: last_op = "swap"; { V * s{&o.v}; switch(r.below(3)) { case 0: SUT(v.swap(*s)); break; case 1: { using std::swap; SUT(swap(v, *s)); break; } default: if(&b != &o) SUT(std::swap(v, *s)); } std::swap(b.m, o.m); } HIT("small swap"); break;
				case 12: last_op = "write"; v.visit([&](auto & x) { using X = std::decay_t<decltype(x)>; x = El<X>::make(id); b.m.val = El<X>::get(El<X>::make(id)); }); break;
				default: last_op = "= own value"; v.visit([&](auto & x) { SUT(v = std::as_const(x)); }); break;
			}
			Hash h; h.add(what); h.add(m.alt); h.add(o.m.alt); h.add(alt); h.add(N); state(h.h);
		}
		V at_value(int alt, int id, M & m) { V w; at(alt, [&](auto * t, std::size_t) { using X = std::remove_pointer_t<decltype(t)>; X x(El<X>::make(id)); m = {alt, El<X>::get(El<X>::make(id))}; if(r.chance(1, 2)) { V z(std::as_const(x)); SUT(w.swap(z)); } else { V z(std::in_place_type<X>, std::as_const(x)); SUT(w = std::move(z)); } }); return w; }
		void history() { for(auto & b : pool) check(b, "default construction"); const auto steps{r.range(10, 60)}; for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); for(auto & b : pool) check(b, last_op); } if(mon::stop()) new std::vector<Box>(std::move(pool)); }
	};
	template<typename... T> void small(Rng & r) { Small<T...> run{r}; run.history(); }
	void plain_bytes(Rng & r) { switch(r.below(4)) { case 0: small<int, double, Odd3, Padded, bool, Color>(r); break; case 1: small<bool, const int *, unsigned long long>(r); break; case 2: small<unsigned char, short>(r); break; default: small<Padded>(r); } }
	void special(Rng & r) { switch(r.below(3)) { case 0: small<Starts, Self, Amp, List, int>(r); break; case 1: small<Self, std::string, Padded, List>(r); break; default: small<List, Self>(r); } }
	void dozen(Rng & r) { small<Num<0>, Num<1>, Num<2>, Num<3>, Num<4>, Num<5>, Num<6>, Num<7>, Num<8>, Num<9>, Self, Num<11>, std::string, Num<13>, Padded, Num<15>, Num<16>, Num<17>>(r); }
	void exact(Rng &) { // only values of exactly one of the alternatives are taken
		OP("constraints");
		using V = ptl::variant<int, double, const char *, std::string>; using B = ptl::variant<bool, std::string>;
		CHECK("C10", "converted", (!std::is_constructible_v<V, long> && !std::is_constructible_v<V, char> && !std::is_constructible_v<V, float &> && !std::is_constructible_v<B, const char *> && !std::is_constructible_v<B, int> && !std::is_constructible_v<B, std::string *> && !std::is_assignable_v<V &, long> && !std::is_assignable_v<B &, const char *> && !std::is_assignable_v<V &, bool> && !std::is_constructible_v<V, std::in_place_type_t<long>, int> && !std::is_constructible_v<V, std::in_place_index_t<4>>), "a value of another type than the alternatives is taken for one of them");
		CHECK("C10", "taken", (std::is_constructible_v<V, int> && std::is_constructible_v<V, const double &> && std::is_constructible_v<V, std::string &> && std::is_assignable_v<V &, const char *&> && std::is_assignable_v<B &, bool &&> && std::is_constructible_v<V, std::in_place_type_t<std::string>, int, char> && std::is_constructible_v<V, std::in_place_index_t<3>, const char *>), "a value of an alternative is not taken");
		B b{true}; SUT(b = std::string("text")); CHECK("C10", "exact", b.holds<std::string>() && b.get<std::string>() == "text", "a string became another alternative"); SUT(b = false); CHECK("C10", "exact", b.holds<bool>() && !b.get<bool>(), "a bool became another alternative");
		V v{'x' + 0}; CHECK("C10", "exact", v.holds<int>() && v.get<int>() == 'x', "an int became another alternative"); const char * t{"chars"}; SUT(v = t); CHECK("C10", "exact", v.holds<const char *>() && v.get<const char *>() == t, "a pointer became another alternative"); SUT(v = 2.0); CHECK("C10", "exact", v.holds<double>() && v.get<double>() == 2.0, "a double became another alternative");
		CHECK("C10", "access-type", (std::is_same_v<decltype(std::declval<const V &>().get<int>()), const int &> && std::is_same_v<decltype(std::declval<V &>().get<int>()), int &> && std::is_same_v<decltype(std::declval<V &&>().get<int>()), int &&> && std::is_same_v<decltype(std::declval<const V &&>().get<int>()), const int &&> && std::is_same_v<decltype(std::declval<const V &>().get_if<int>()), const int *> && std::is_same_v<decltype(std::declval<V &>().get_if<int>()), int *>), "access to an alternative changes constness or value category");
		HIT("exact alternatives"); state(0xE0);
	}
	SCENARIO("variant takes exact types", "C10", exact, 1); REQUIRE("C10", "exact alternatives");
	SCENARIO("variant of 18 alternatives", "C10", dozen, 1);
	SCENARIO("variant of plain values", "C10", plain_bytes, 1); SCENARIO("variant of special values", "C10", special, 2);
	REQUIRE("C10", "small copy assign"); REQUIRE("C10", "small swap"); REQUIRE("C10", "small emplace default");
#endif
}
