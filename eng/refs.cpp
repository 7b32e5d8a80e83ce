// optional_ref, variant_ref: binding histories against a model of addresses. function_ref: call logs.
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include "../rt/elems.hpp"

namespace {
	using namespace mon;
	struct Sly { int v; unsigned pad{7}; Sly * operator&() { return nullptr; } const Sly * operator&() const { return nullptr; } }; // & is overloaded
	struct BaseA { long a{1}; virtual ~BaseA() =default; }; struct BaseB { int v{0}; }; struct Multi : BaseA, BaseB { int m{3}; };
	template<typename T> struct OptLike { std::unique_ptr<T> p; explicit operator bool() const { return p != nullptr; } T & operator*() { return *p; } const T & operator*() const { return *p; } };
	template<typename T> struct El2 { static int get(const T & t) { return t.get(); } static T make(int v) { return T{v}; } };
	template<> struct El2<int> { static int get(int t) { return t; } static int make(int v) { return v; } };
	template<> struct El2<Sly> { static int get(const Sly & t) { return t.v; } static Sly make(int v) { return {v}; } };
	template<> struct El2<std::string> { static int get(const std::string & t) { return std::atoi(t.c_str()); } static std::string make(int v) { return std::to_string(v) + " some more text than fits inline"; } };

	std::uint64_t allocs0, copies0, moves0;
	void begin_quiet() { allocs0 = heap::allocs; copies0 = Life::copies; moves0 = Life::moves; }
	void quiet(const char * p, const char * what) { CHECK(p, "touches", heap::allocs == allocs0 && Life::copies == copies0 && Life::moves == moves0, "%s allocates memory or copies or moves an object", what); }

	template<typename T> struct OptRun {
		using R = ptl::optional_ref<T>; using C = ptl::optional_ref<const T>; using E = El2<T>;
		Rng & r;
		T obj[3]; int val[3]; ptl::optional<T> po; std::optional<T> so; OptLike<T> lo; int pv{-1}, sv{-1}, lv{-1};
		R refs[3]; C crefs[2]; const void * want[5]{};
		explicit OptRun(Rng & r) : r{r}, obj{E::make(1), E::make(2), E::make(3)}, val{1, 2, 3} {}
		static const void * addr(const T & t) { return std::addressof(t); }
		template<typename X> void look(const X & x, const void * w, const char * op) {
			CHECK("C18", "binding", x.has_value() == (w != nullptr) && static_cast<bool>(x) == (w != nullptr), "after %s: an optional_ref is %s", op, x.has_value() ? "engaged but should be empty" : "empty but should be engaged");
			if(poisoned) return;
			if(w) CHECK("C18", "object", std::addressof(SUT(*x)) == w && SUT(x.operator->()) == w && std::addressof(SUT(x.value())) == w, "after %s: an optional_ref refers to another object", op);
			else { bool t{false}; try { (void)std::addressof(x.value()); } catch(const std::bad_optional_access &) { t = true; } CHECK("C18", "empty-value", t, "value() of an empty optional_ref does not throw"); }
			const int d{777}; const T dv{E::make(d)};
			const T y{SUT(x.value_or(dv))}; CHECK("C18", "value_or", E::get(y) == (w ? E::get(*static_cast<const T *>(w)) : d), "after %s: value_or yields %d", op, E::get(y));
			const T z{SUT(x.value_or(E::make(d)))}; CHECK("C18", "value_or", E::get(z) == (w ? E::get(*static_cast<const T *>(w)) : d), "after %s: value_or with an rvalue yields %d", op, E::get(z));
			T dm{E::make(d)}; const T q{SUT(x.value_or(std::move(dm)))}; CHECK("C18", "value_or", E::get(q) == (w ? E::get(*static_cast<const T *>(w)) : d) && (!w || E::get(dm) == d), "after %s: value_or of an engaged optional_ref yields %d or takes the default that was not needed", op, E::get(q));
		}
		void check(const char * op) {
			for(int i{0}; i < 3; ++i) { look(refs[i], want[i], op); CHECK("C18", "modified", E::get(obj[i]) == val[i], "%s changed a referenced object to %d, expected %d", op, E::get(obj[i]), val[i]); if(poisoned) return; }
			for(int i{0}; i < 2; ++i) look(crefs[i], want[3 + i], op);
			CHECK("C18", "modified", po.has_value() == (pv >= 0) && so.has_value() == (sv >= 0) && static_cast<bool>(lo) == (lv >= 0) && (pv < 0 || E::get(*po) == pv) && (sv < 0 || E::get(*so) == sv) && (lv < 0 || E::get(*lo) == lv), "%s changed a referenced optional", op);
			Hash h; h.add(op, std::strlen(op)); h.add(sizeof(T)); for(auto w : want) h.add(w == nullptr ? 0 : w == addr(obj[0]) ? 1 : w == addr(obj[1]) ? 2 : w == addr(obj[2]) ? 3 : 4); state(h.h);
		}
		void run() {
			const auto n{r.range(5, 30)};
			const char * op{"construction"};
			for(std::size_t s{0}; s < n && !poisoned; ++s) {
				const auto i{r.below(3)}, j{r.below(3)}, k{r.below(2)}, o{r.below(3)};
				const int v{static_cast<int>(r.below(500))};
				begin_quiet();
				switch(r.below(20)) {
					case 0: op = "= nullopt"; OP("ref %zu = nullopt", i); SUT(refs[i] = std::nullopt); want[i] = nullptr; break;
					case 1: case 2: op = "= object"; OP("ref %zu = object %zu", i, o); SUT(refs[i] = obj[o]); want[i] = addr(obj[o]); HIT("bound to an object"); break;
					case 3: op = "= optional_ref"; OP("ref %zu = ref %zu", i, j); SUT(refs[i] = refs[j]); want[i] = want[j]; HIT("bound to a reference"); break;
					case 4: op = "const = object"; OP("cref %zu = object %zu", k, o); SUT(crefs[k] = obj[o]); want[3 + k] = addr(obj[o]); break;
					case 5: op = "const = const object"; OP("cref %zu = const object %zu", k, o); SUT(crefs[k] = std::as_const(obj[o])); want[3 + k] = addr(obj[o]); break;
					case 6: op = "const = optional_ref"; OP("cref %zu = ref %zu", k, j); { auto & x{refs[j]}; SUT(crefs[k] = x); } want[3 + k] = want[j]; HIT("const from mutable"); break;
					case 7: op = "= ptl::optional"; OP("ref %zu = optional", i); SUT(refs[i] = po); want[i] = pv >= 0 ? addr(*po) : nullptr; HIT("bound to an optional"); break;
					case 8: op = "const = ptl::optional"; OP("cref %zu = const optional", k); SUT(crefs[k] = std::as_const(po)); want[3 + k] = pv >= 0 ? addr(*po) : nullptr; break;
					case 9: op = "= std::optional"; OP("ref %zu = std::optional", i); SUT(refs[i] = so); want[i] = sv >= 0 ? addr(*so) : nullptr; break;
					case 10: op = "= optional-like"; OP("ref %zu = optional-like", i); { SUT(refs[i] = lo); } want[i] = lv >= 0 ? addr(*lo) : nullptr; break;
					case 11: op = "= pointer"; { T * p{r.chance(1, 4) ? nullptr : std::addressof(obj[o])}; OP("ref %zu = pointer", i); SUT(refs[i] = p); want[i] = p; HIT("bound to a pointer"); const T * q{p}; SUT(crefs[k] = q); want[3 + k] = q; break; }
					case 12: op = "= unique_ptr"; { OP("ref %zu = unique_ptr", i); std::unique_ptr<T> & u{lo.p}; SUT(refs[i] = u); want[i] = lv >= 0 ? addr(*lo) : nullptr; break; }
					case 13: op = "construction"; { OP("construct"); R a{SUT(R(obj[o]))}; look(a, addr(obj[o]), op); R b{SUT(R(a))}; look(b, addr(obj[o]), op); R c{std::move(b)}; look(c, addr(obj[o]), op); R e; look(e, nullptr, op); R f{std::nullopt}; look(f, nullptr, op); R g{po}; look(g, pv >= 0 ? addr(*po) : nullptr, op); ptl::optional_ref d{so}; static_assert(std::is_same_v<decltype(d), R>); look(d, sv >= 0 ? addr(*so) : nullptr, op); ptl::optional_ref dc{std::as_const(so)}; static_assert(std::is_same_v<decltype(dc), C>); look(dc, sv >= 0 ? addr(*so) : nullptr, op); break; }
					case 14: if(want[i]) { op = "write through *"; OP("write %d through ref %zu", v, i); const T x{E::make(v)}; const bool arrow{r.chance(1, 2)}; if(arrow) *refs[i].operator->() = x; else if(r.chance(1, 2)) refs[i].value() = x; else *refs[i] = x; noted(want[i], v); HIT("writes through optional_ref"); } break;
					case 15: { op = "change of an object"; OP("object %zu = %d", o, v); obj[o] = E::make(v); val[o] = v; break; }
					case 16: { op = "change of an optional"; if(pv < 0 || r.chance(1, 2)) { OP("optional = %d", v); const void * was{pv >= 0 ? addr(*po) : nullptr}; po = E::make(v); pv = v; (void)was; } else { OP("optional reset"); gone(addr(*po)); po.reset(); pv = -1; } break; }
					case 17: { op = "change of an optional"; if(sv < 0 || r.chance(1, 2)) { OP("std::optional = %d", v); so = E::make(v); sv = v; } else { OP("std::optional reset"); gone(addr(*so)); so.reset(); sv = -1; } break; }
					case 18: { op = "change of an optional"; if(lv >= 0) { gone(addr(*lo)); lo.p.reset(); lv = -1; OP("optional-like reset"); } else { OP("optional-like = %d", v); lo.p = std::make_unique<T>(E::make(v)); lv = v; } break; }
					default: op = "swap"; OP("swap %zu %zu", i, j); std::swap(refs[i], refs[j]); std::swap(want[i], want[j]);
				}
				if(std::strncmp(op, "change", 6) && std::strncmp(op, "write", 5) && std::strncmp(op, "con", 3)) quiet("C18", op);
				check(op);
			}
		}
		void gone(const void * p) { for(int i{0}; i < 3; ++i) if(want[i] == p) { refs[i] = std::nullopt; want[i] = nullptr; } for(int i{0}; i < 2; ++i) if(want[3 + i] == p) { crefs[i] = std::nullopt; want[3 + i] = nullptr; } }
		void noted(const void * p, int v) { for(int i{0}; i < 3; ++i) if(p == addr(obj[i])) val[i] = v; if(pv >= 0 && p == addr(*po)) pv = v; if(sv >= 0 && p == addr(*so)) sv = v; if(lv >= 0 && p == addr(*lo)) lv = v; }
	};
	template<typename T> void optional_refs(Rng & r) { OptRun<T> run{r}; run.run(); }
	void bases(Rng &) { // a base class subobject at an offset
		Multi m; std::optional<Multi> o{Multi{}}; const Multi & cm{m};
		OP("references to base classes");
		ptl::optional_ref<BaseB> a{m}; ptl::optional_ref<const BaseB> b{cm}; ptl::optional_ref<BaseB> c{o}; ptl::optional_ref<BaseA> d{m}; Multi * p{&m}; ptl::optional_ref<BaseB> e{p}; Multi * z{nullptr}; ptl::optional_ref<BaseB> f{z};
		CHECK("C18", "base", &*a == static_cast<BaseB *>(&m) && &*b == static_cast<const BaseB *>(&m) && &*c == static_cast<BaseB *>(&*o) && &*d == static_cast<BaseA *>(&m) && e.operator->() == static_cast<BaseB *>(&m) && !f.has_value(), "an optional_ref to a base class refers to another object");
		HIT("base class references"); state(7);
	}

	// variant_ref
	using Wide = ptl::variant_ref<int, const int, Sly, const std::string, std::string, Tr<0>, const Tr<1>, BaseB, Multi, const Sly, double>;
	struct Spy { // a visitor that logs what it is given
		struct Log { int calls{0}; const void * p{nullptr}; int which{-1}; } * log;
		template<typename T> static constexpr int id() { return std::is_same_v<T, int> ? 0 : std::is_same_v<T, const int> ? 1 : std::is_same_v<T, Sly> ? 2 : std::is_same_v<T, const std::string> ? 3 : std::is_same_v<T, std::string> ? 4 : std::is_same_v<T, Tr<0>> ? 5 : std::is_same_v<T, const Tr<1>> ? 6 : std::is_same_v<T, BaseB> ? 7 : std::is_same_v<T, Multi> ? 8 : std::is_same_v<T, const Sly> ? 9 : std::is_same_v<T, double> ? 10 : 99; }
		template<typename T> int operator()(T & t) const { ++log->calls; log->p = std::addressof(t); log->which = id<T>(); return 1000 + id<T>(); }
	};
	struct Counting { int calls{0}; template<typename T> Counting * operator()(T &) { ++calls; return this; } }; // state changes with every call
	struct Objs { int i{1}; const int ci{2}; Sly s{3}; const std::string cs{"4"}; std::string ss{"5"}; Tr<0> t{6}; const Tr<1> ct{7}; BaseB b; Multi m; const Sly csl{9}; double d{10}; int i2{11}; std::string ss2{"12"};
		bool intact() const { return i == 1 && ci == 2 && s.v == 3 && s.pad == 7 && cs == "4" && ss == "5" && t.get() == 6 && ct.get() == 7 && b.v == 0 && m.m == 3 && m.v == 0 && csl.v == 9 && d == 10 && i2 == 11 && ss2 == "12"; } };
	struct VarRun {
		Rng & r; Objs one, two; Objs & o{one}; Wide refs[3]; struct W { int which; const void * p; } want[3];
		explicit VarRun(Rng & r) : r{r}, refs{o.i, o.d, o.t}, want{{0, &o.i}, {10, &o.d}, {5, &o.t}} {}
		template<typename T, int Which> void alt(const Wide & v, const W & w, const char * op) {
			const bool h{w.which == Which};
			CHECK("C18", "holds", SUT(v.holds<T>()) == h, "after %s: holds of alternative %d is %d", op, Which, v.holds<T>());
			if(poisoned) return;
			CHECK("C18", "get_if", static_cast<const void *>(SUT(v.get_if<T>())) == (h ? w.p : nullptr), "after %s: get_if of alternative %d yields another object", op, Which);
			static_assert(std::is_same_v<decltype(v.get_if<T>()), T *> && std::is_same_v<decltype(v.get<T>()), T &>);
			if(h) CHECK("C18", "get", static_cast<const void *>(std::addressof(SUT(v.get<T>()))) == w.p, "after %s: get of alternative %d yields another object", op, Which);
			else { bool t{false}; try { (void)std::addressof(v.get<T>()); } catch(const std::bad_variant_access &) { t = true; } CHECK("C18", "get-other", t, "after %s: get of another alternative does not throw", op); }
		}
		void look(const Wide & v, const W & w, const char * op) {
			alt<int, 0>(v, w, op); alt<const int, 1>(v, w, op); alt<Sly, 2>(v, w, op); alt<const std::string, 3>(v, w, op); alt<std::string, 4>(v, w, op); alt<Tr<0>, 5>(v, w, op); alt<const Tr<1>, 6>(v, w, op); alt<BaseB, 7>(v, w, op); alt<Multi, 8>(v, w, op); alt<const Sly, 9>(v, w, op); alt<double, 10>(v, w, op);
			if(poisoned) return;
			Spy::Log l; Spy spy{&l}; const Spy cspy{&l};
			begin_quiet();
			int res{r.chance(1, 3) ? SUT(v.visit(Spy{&l})) : r.chance(1, 2) ? SUT(v.visit(spy)) : SUT(v.visit(cspy))};
			quiet("C18", "visit");
			CHECK("C18", "visit", l.calls == 1 && l.p == w.p && l.which == w.which && res == 1000 + w.which, "after %s: visit called the visitor %d times, with alternative %d (expected %d)%s", op, l.calls, l.which, w.which, l.p == w.p ? "" : " and another object");
			int calls{0}; const void * p{nullptr};
			const int k{SUT(v.visit([&](const std::string & s) { ++calls; p = &s; return 1; }, [&](int & x) { ++calls; p = &x; return 2; }, [&](const auto & x) { ++calls; p = std::addressof(x); return 3; }))};
			CHECK("C18", "visit-many", calls == 1 && p == w.p && k == (w.which == 3 || w.which == 4 ? 1 : w.which == 0 ? 2 : 3), "after %s: visit with several visitors called %d of them, result %d", op, calls, k);
			auto & ref{SUT(v.visit([&](auto & x) -> int & { (void)x; return calls; }))}; CHECK("C18", "visit-result", &ref == &calls, "visit does not return the visitor's result");
			bool threw{false}; try { SUT(v.visit([](auto &) -> int { throw 5; })); } catch(int e) { threw = e == 5; } CHECK("C18", "visit-throw", threw, "visit does not propagate the visitor's exception");
			Counting cv; const auto a1{SUT(v.visit(cv))}, a2{SUT(v.visit(cv))}; CHECK("C18", "visit-state", cv.calls == 2 && a1 == &cv && a2 == &cv, "visit of alternative %d called another visitor than the one given: it saw %d of 2 calls", w.which, cv.calls);
			HIT("visits");
		}
		void run() {
			const char * op{"construction"};
			const auto n{r.range(4, 16)};
			for(std::size_t s{0}; s < n && !poisoned; ++s) {
				const auto i{r.below(3)}, j{r.below(3)};
				begin_quiet();
				const auto k{r.below(17)};
				Objs & o{r.chance(1, 2) ? one : two}; // two objects of every type
				if(k < 13) { op = "= object"; OP("ref %zu = object %zu of set %d", i, k, &o == &two); }
				switch(k) {
					case 0: SUT(refs[i] = o.i); want[i] = {0, &o.i}; break; case 1: SUT(refs[i] = o.ci); want[i] = {1, &o.ci}; break; case 2: SUT(refs[i] = o.s); want[i] = {2, std::addressof(o.s)}; break; case 3: SUT(refs[i] = o.cs); want[i] = {3, &o.cs}; break; case 4: SUT(refs[i] = o.ss); want[i] = {4, &o.ss}; break; case 5: SUT(refs[i] = o.t); want[i] = {5, &o.t}; break;
					case 6: SUT(refs[i] = o.ct); want[i] = {6, &o.ct}; break; case 7: SUT(refs[i] = o.b); want[i] = {7, &o.b}; break; case 8: SUT(refs[i] = o.m); want[i] = {8, &o.m}; break; case 9: SUT(refs[i] = o.csl); want[i] = {9, std::addressof(o.csl)}; break; case 10: SUT(refs[i] = o.d); want[i] = {10, &o.d}; break;
					case 11: SUT(refs[i] = std::as_const(o.i)); want[i] = {1, &o.i}; break; // a const view of a mutable object
					case 12: SUT(refs[i] = std::as_const(o.ss2)); want[i] = {3, &o.ss2}; break;
					case 13: { op = "= variant_ref"; OP("ref %zu = ref %zu", i, j); const Wide * q{&refs[j]}; Wide & z{SUT(refs[i] = *q)}; CHECK("C18", "returned", &z == &refs[i], "assignment returns another object"); want[i] = want[j]; HIT("variant_ref assigned"); break; }
					case 14: { op = "copy"; OP("copy of ref %zu", i); Wide c{SUT(Wide(refs[i]))}; look(c, want[i], op); Wide d{std::move(c)}; look(d, want[i], op); c = o.d; look(d, want[i], op); break; }
					case 15: { op = "construction"; OP("construct"); Wide a{SUT(Wide(o.i2))}; look(a, {0, &o.i2}, op); Wide b{SUT(Wide(std::as_const(o.i2)))}; look(b, {1, &o.i2}, op); Wide c{SUT(Wide(o.ss2))}; look(c, {4, &o.ss2}, op);
						ptl::variant_ref<const int, double> d{o.i}; CHECK("C18", "const-only", d.get_if<const int>() == &o.i && !d.get_if<double>(), "a mutable object does not bind to a const alternative");
						int calls{0}; auto rvalue{[&](ptl::variant_ref<int, const int, const double> q) { ++calls; return q.holds<const int>() && q.get<const int>() == 42; }}; CHECK("C18", "rvalue", rvalue(42) && calls == 1, "a temporary does not bind to the const alternative"); HIT("bindings to const"); break; }
					default: { op = "write"; OP("write through ref %zu", i); if(auto p{refs[i].get_if<int>()}) { const int was{*p}; refs[i].get<int>() = 99; CHECK("C18", "write", *static_cast<const int *>(want[i].p) == 99, "a write through a variant_ref does not reach the object"); *p = was; HIT("writes through variant_ref"); } }
				}
				if(!std::strcmp(op, "= object") || !std::strcmp(op, "= variant_ref")) quiet("C18", op);
				for(int x{0}; x < 3 && !poisoned; ++x) look(refs[x], want[x], op);
				CHECK("C18", "modified", one.intact() && two.intact(), "%s changed a referenced object", op);
				Hash h; h.add(op, std::strlen(op)); for(auto & w : want) { h.add(w.which); h.add(static_cast<const char *>(w.p) >= reinterpret_cast<const char *>(&two)); } state(h.h);
			}
		}
	};
	void variant_refs(Rng & r) { VarRun run{r}; run.run(); }
	// many alternatives
	template<int I> struct Num { int v{I}; };
	template<int... I> void many(Rng & r, std::integer_sequence<int, I...>) {
		using V = ptl::variant_ref<Num<I>...>;
		std::tuple<Num<I>...> t;
		std::vector<V> vs{V{std::get<I>(t)}...};
		OP("variant_ref of %zu alternatives", vs.size());
		V x{std::get<0>(t)};
		for(int k{0}; k < 40 && !poisoned; ++k) {
			const auto i{r.below(vs.size())};
			x = vs[i];
			int calls{0}; const void * p{nullptr};
			const int got{x.visit([&](auto & n) { ++calls; p = &n; return n.v; })};
			const bool holds[]{x.template holds<Num<I>>()...}; const void * at[]{&std::get<I>(t)...}; const void * gets[]{x.template get_if<Num<I>>()...};
			CHECK("C18", "visit", calls == 1 && got == static_cast<int>(i) && p == at[i], "alternative %zu of %zu is visited as %d", i, vs.size(), got);
			for(std::size_t j{0}; j < vs.size(); ++j) CHECK("C18", "holds", holds[j] == (j == i) && gets[j] == (j == i ? at[i] : nullptr), "alternative %zu of %zu: holds or get_if of alternative %zu wrong", i, vs.size(), j);
			Hash h; h.add(vs.size()); h.add(i); state(h.h);
		}
		HIT("many alternatives");
	}
	void many_alternatives(Rng & r) { if(r.chance(1, 2)) many(r, std::make_integer_sequence<int, 40>{}); else many(r, std::make_integer_sequence<int, 5>{}); }

	// what must not be offered: mutable access to constant objects or to temporaries
	void constness(Rng &) {
		OP("constness");
		using R = ptl::optional_ref<int>; using C = ptl::optional_ref<const int>; using V = ptl::variant_ref<int, double, const std::string>; using K = ptl::variant_ref<const int>;
		CHECK("C18", "optional-const", (!std::is_constructible_v<R, const int &> && !std::is_constructible_v<R, const ptl::optional<int> &> && !std::is_constructible_v<R, const std::optional<int> &> && !std::is_constructible_v<R, const int *&> && !std::is_constructible_v<R, C &> && !std::is_constructible_v<R, const C &> && !std::is_assignable_v<R &, const int &> && !std::is_assignable_v<R &, C &> && !std::is_assignable_v<R &, const std::unique_ptr<const int> &>), "an optional_ref to a mutable object is bound to a const one");
		CHECK("C18", "optional-temporary", (!std::is_constructible_v<R, int> && !std::is_assignable_v<R &, int> && !std::is_constructible_v<R, ptl::optional<int>>), "an optional_ref to a mutable object is bound to a temporary");
		CHECK("C18", "optional-other", (!std::is_constructible_v<R, long &> && !std::is_constructible_v<R, ptl::optional<long> &> && !std::is_constructible_v<C, double *&> && std::is_constructible_v<C, R &> && std::is_constructible_v<C, const ptl::optional<int> &> && std::is_constructible_v<R, ptl::optional<int> &>), "an optional_ref is bound to an object of another type");
		CHECK("C18", "variant-const", (!std::is_constructible_v<V, const int &> && !std::is_assignable_v<V &, const double &> && !std::is_constructible_v<ptl::variant_ref<std::string>, const std::string &>), "a variant_ref gives mutable access to a const object");
		CHECK("C18", "variant-temporary", (!std::is_constructible_v<V, int> && !std::is_constructible_v<V, double> && !std::is_assignable_v<V &, int> && std::is_constructible_v<K, int> && std::is_constructible_v<V, int &>), "a variant_ref gives mutable access to a temporary");
		CHECK("C18", "variant-other", (!std::is_constructible_v<V, long &> && !std::is_constructible_v<K, double &> && !std::is_constructible_v<V, const char *>), "a variant_ref is bound to an object of a type it does not name");
		CHECK("C18", "access-type", (std::is_same_v<decltype(*std::declval<const C &>()), const int &> && std::is_same_v<decltype(*std::declval<const R &>()), int &> && std::is_same_v<decltype(std::declval<const K &>().get<const int>()), const int &> && std::is_same_v<decltype(std::declval<const C &>().operator->()), const int *> && std::is_same_v<decltype(std::declval<const C &>().value()), const int &>), "access through a reference changes constness");
		HIT("constness"); state(0xC0);
	}

	SCENARIO("constness of references", "C18", constness, 1); REQUIRE("C18", "constness");
	SCENARIO("optional_ref<int>", "C18", optional_refs<int>, 2); SCENARIO("optional_ref<tracked>", "C18", optional_refs<Tr<0>>, 2); SCENARIO("optional_ref<std::string>", "C18", optional_refs<std::string>, 1); SCENARIO("optional_ref<overloaded &>", "C18", optional_refs<Sly>, 1); SCENARIO("optional_ref to bases", "C18", bases, 1);
	SCENARIO("variant_ref", "C18", variant_refs, 3); SCENARIO("variant_ref of many", "C18", many_alternatives, 1);
	REQUIRE("C18", "bound to an object"); REQUIRE("C18", "bound to a reference"); REQUIRE("C18", "const from mutable"); REQUIRE("C18", "bound to an optional"); REQUIRE("C18", "bound to a pointer"); REQUIRE("C18", "writes through optional_ref"); REQUIRE("C18", "base class references"); REQUIRE("C18", "visits"); REQUIRE("C18", "variant_ref assigned"); REQUIRE("C18", "bindings to const"); REQUIRE("C18", "writes through variant_ref"); REQUIRE("C18", "many alternatives");
}
