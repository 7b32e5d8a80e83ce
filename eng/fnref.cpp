// function_ref: every call is one call of the bound callable on the original object, with the arguments as given.
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
#include <ptl/function_ref.hpp>
#include "../rt/tracked.hpp"

namespace {
	using namespace mon;
	struct Event { const void * self; int kind; const void * arg; long val; }; // kind: who was called, in which constness and with which value category
	Event last; std::size_t n_events; // the log of one call
	void logged(const void * self, int kind, const void * arg = nullptr, long val = 0) { last = {self, kind, arg, val}; ++n_events; }
	enum Kind { mut = 1, cst = 2, lref = 10, clref = 20, rref = 30, fn0 = 100 };

	// arguments that know how often they were copied and moved
	struct Arg {
		int v{0}; int copies{0}, moves{0};
		explicit Arg(int v) : v{v} {}
		Arg(const Arg & o) : v{o.v}, copies{o.copies + 1}, moves{o.moves} {}
		Arg(Arg && o) noexcept : v{o.v}, copies{o.copies}, moves{o.moves + 1} { o.v = -1; }
		Arg & operator=(const Arg &) =delete;
	};
	struct MoveOnly { std::unique_ptr<int> p; explicit MoveOnly(int v) : p{new int{v}} {} };
	struct Pinned { int v; explicit Pinned(int v) : v{v} {} Pinned(Pinned &&) =delete; };
	struct Thrown { int v; };

	// a functor with state, distinguishing const and non-const calls; & is overloaded, copying is an error
	template<int Tag> struct Fun {
		long id; long calls{0}; mutable long ccalls{0}; long guard[2]{0x5ca1ab1e, 0x0ddba11};
		explicit Fun(long id) : id{id} {}
		Fun(const Fun & o) : id{o.id} { violate("C19", "copied", "a function_ref copies the callable"); }
		Fun & operator=(const Fun &) { violate("C19", "copied", "a function_ref assigns to the callable"); return *this; }
		Fun * operator&() { return nullptr; } const Fun * operator&() const { return nullptr; }
		bool intact() const { return guard[0] == 0x5ca1ab1e && guard[1] == 0x0ddba11; }
		long operator()(long v) { ++calls; logged(this, mut, nullptr, v); return id * 1000 + v; }
		long operator()(long v) const { ++ccalls; logged(this, cst, nullptr, v); return id * 1000 + v + 500; }
	};
	struct Cats { // overloaded on the value category of its argument
		int operator()(Arg & a) { logged(this, mut + lref, &a, a.v); return 1; }
		int operator()(const Arg & a) { logged(this, mut + clref, &a, a.v); return 2; }
		int operator()(Arg && a) { logged(this, mut + rref, &a, a.v); return 3; }
		int operator()(Arg & a) const { logged(this, cst + lref, &a, a.v); return 4; }
		int operator()(const Arg & a) const { logged(this, cst + clref, &a, a.v); return 5; }
		int operator()(Arg && a) const { logged(this, cst + rref, &a, a.v); return 6; }
	};
	struct NoThrow { long operator()(long v) noexcept { logged(this, mut, nullptr, v); return v + 1; } long operator()(long v) const noexcept { logged(this, cst, nullptr, v); return v + 2; } };
	long f0(long v) { logged(nullptr, fn0, nullptr, v); return v + 10; }
	long f1(long v) { logged(nullptr, fn0 + 1, nullptr, v); return v + 20; }
	long f2(long v) noexcept { logged(nullptr, fn0 + 2, nullptr, v); return v + 30; }
	int f3(int v) { logged(nullptr, fn0 + 3, nullptr, v); return v + 40; } // converted argument and result

	std::uint64_t allocs0;
	template<typename F> void quiet(const char * what, F && f) { allocs0 = heap::allocs; f(); CHECK("C19", "allocates", heap::allocs == allocs0, "%s of a function_ref allocates memory", what); }
	template<typename R> void one(const R & r, const char * what, const void * self, int kind, long val, long res) {
		n_events = 0;
		const long got{SUT(r(val))};
		CHECK("C19", "call-once", n_events == 1, "a call through a function_ref (%s) made %zu calls", what, n_events);
		CHECK("C19", "call-target", last.self == self && last.kind == kind, "a call through a function_ref (%s) reached another callable, object or overload", what);
		CHECK("C19", "call-argument", last.val == val, "a call through a function_ref (%s) passed %ld, expected %ld", what, last.val, val);
		CHECK("C19", "call-result", got == res, "a call through a function_ref (%s) returned %ld, expected %ld", what, got, res);
		HIT("calls observed");
	}

	// random bindings of several function_refs, called again and again
	template<typename Sig, bool Const> struct Run {
		using R = ptl::function_ref<Sig>;
		struct Target { int what; const void * self; long id; };
		Rng & r; Fun<0> a{1}, b{2}; Fun<1> c{3}; const Fun<0> d{4}; long cap{0};
		explicit Run(Rng & r) : r{r} {}
		void call(const R & f, const Target & t, const char * op) {
			const long v{static_cast<long>(r.below(400))};
			switch(t.what) {
				case 0: { const bool k{Const}; one(f, op, t.self, k ? cst : mut, v, t.id * 1000 + v + (k ? 500 : 0)); break; }
				case 1: one(f, op, t.self, cst, v, t.id * 1000 + v + 500); break; // a const object
				case 2: one(f, op, nullptr, fn0 + static_cast<int>(t.id), v, v + 10 * (t.id + 1)); break;
				case 3: one(f, op, t.self, static_cast<int>(fn0 + 50), v, v + 7); break;
			}
			CHECK("C19", "target-changed", a.intact() && b.intact() && c.intact() && d.intact() && a.id == 1 && b.id == 2 && c.id == 3 && d.id == 4, "a bound callable was overwritten");
		}
		void run() {
			auto lam{[this](long v) { logged(this, fn0 + 50, nullptr, v); return v + 7; }};
			R refs[3]{a, f0, c}; Target want[3]{{0, std::addressof(a), 1}, {2, nullptr, 0}, {0, std::addressof(c), 3}};
			const auto n{r.range(4, 30)};
			for(std::size_t s{0}; s < n && !poisoned; ++s) {
				const auto i{r.below(3)}, j{r.below(3)};
				const char * op{"binding"};
				quiet("binding, copying or assigning", [&] {
					Hash h; h.add(typeid(R).hash_code());
					switch(const auto k{r.below(12)}; h.add(k), k) {
						case 0: OP("ref %zu = functor a", i); SUT(refs[i] = R{a}); want[i] = {0, std::addressof(a), 1}; break;
						case 1: OP("ref %zu = functor b", i); SUT(refs[i] = R{b}); want[i] = {0, std::addressof(b), 2}; break;
						case 2: OP("ref %zu = functor c", i); SUT(refs[i] = R{c}); want[i] = {0, std::addressof(c), 3}; break;
						case 3: OP("ref %zu = const functor d", i); SUT(refs[i] = R{d}); want[i] = {1, std::addressof(d), 4}; HIT("const functor bound"); break;
						case 4: OP("ref %zu = function 0", i); if(r.chance(1, 2)) SUT(refs[i] = f0); else SUT(refs[i] = &f0); want[i] = {2, nullptr, 0}; HIT("function bound"); break;
						case 5: { OP("ref %zu = pointer to function 1", i); long (*p)(long){f1}; SUT(refs[i] = p); p = f0; want[i] = {2, nullptr, 1}; HIT("function pointer bound"); break; } // the function, not the pointer variable
						case 6: OP("ref %zu = function 3 (conversions)", i); SUT(refs[i] = f3); want[i] = {2, nullptr, 3}; HIT("converted argument and result"); break;
						case 7: OP("ref %zu = lambda", i); SUT(refs[i] = R{lam}); want[i] = {3, this, 0}; break;
						case 8: OP("ref %zu = noexcept function", i); SUT(refs[i] = f2); want[i] = {2, nullptr, 2}; break;
						case 9: case 10: { OP("ref %zu = ref %zu", i, j); R & x{SUT(refs[i] = refs[j])}; CHECK("C19", "returned", &x == &refs[i], "assignment returns another object"); want[i] = want[j]; op = "assigned from a function_ref"; HIT("function_ref assigned"); break; }
						default: { OP("copy of ref %zu", i); R x{SUT(R(refs[i]))}; R y{SUT(R(std::move(x)))}; const R z{y}; const auto t{want[i]}; SUT(refs[i] = R{a}); want[i] = {0, std::addressof(a), 1}; call(x, t, "a copy"); call(y, t, "a moved-to copy"); call(z, t, "a const copy"); HIT("function_ref copied"); }
					}
					for(int k{0}; k < 3; ++k) { h.add(want[k].what); h.add(static_cast<std::uint64_t>(want[k].id)); }
					state(h.h);
				});
				for(int k{0}; k < 3 && !poisoned; ++k) { quiet("a call", [&] { call(refs[k], want[k], op); }); }
			}
		}
	};
	void plain(Rng & r) { Run<long(long), false> x{r}; x.run(); }
	void constant(Rng & r) { Run<long(long) const, true> x{r}; x.run(); HIT("const signatures"); }

	template<typename Sig, bool Const> void nothrow(Rng & r) {
		using R = ptl::function_ref<Sig>;
		NoThrow a, b; const NoThrow c;
		static_assert(std::is_nothrow_invocable_v<const R &, long>);
		R f{a}, g{f2}; const long v{static_cast<long>(r.below(99))};
		OP("noexcept signatures");
		quiet("a call", [&] {
			one(f, "noexcept", &a, Const ? cst : mut, v, v + 1 + Const); one(g, "noexcept", nullptr, fn0 + 2, v, v + 30);
			f = R{b}; one(f, "noexcept", &b, Const ? cst : mut, v, v + 1 + Const); f = g; one(f, "noexcept", nullptr, fn0 + 2, v, v + 30); g = R{c}; one(g, "noexcept", &c, cst, v, v + 2); one(f, "noexcept", nullptr, fn0 + 2, v, v + 30);
		});
		Hash h; h.add("nothrow", 7); h.add(Const); h.add(static_cast<std::uint64_t>(v)); state(h.h); HIT("noexcept signatures");
	}

	// arguments: identity, value category, number of copies
	template<bool Const> void arguments(Rng & r) {
		Cats t; const int k{Const ? cst : mut}; const int base{Const ? 3 : 0};
		const int v{static_cast<int>(r.below(1000))};
		Arg a{v}; Hash h; h.add("args", 4); h.add(Const);
		#define SIG(...) std::conditional_t<Const, int(__VA_ARGS__) const, int(__VA_ARGS__)>
		switch(const auto w{r.below(7)}; h.add(w), w) {
			case 0: { OP("Arg &"); ptl::function_ref<SIG(Arg &)> f{t}; n_events = 0; const int x{SUT(f(a))}; CHECK("C19", "forward-lref", x == base + 1 && n_events == 1 && last.self == &t && last.kind == k + lref && last.arg == &a && a.copies + a.moves == 0, "an lvalue reference argument is not forwarded as the same lvalue"); break; }
			case 1: { OP("const Arg &"); ptl::function_ref<SIG(const Arg &)> f{t}; n_events = 0; const int x{SUT(f(a))}; CHECK("C19", "forward-clref", x == base + 2 && n_events == 1 && last.kind == k + clref && last.arg == &a && a.copies + a.moves == 0, "a const lvalue reference argument is not forwarded as the same const lvalue"); break; }
			case 2: { OP("Arg &&"); ptl::function_ref<SIG(Arg &&)> f{t}; n_events = 0; const int x{SUT(f(std::move(a)))}; CHECK("C19", "forward-rref", x == base + 3 && n_events == 1 && last.kind == k + rref && last.arg == &a && a.copies + a.moves == 0, "an rvalue reference argument is not forwarded as the same rvalue"); break; }
			case 3: { // by value from an lvalue: copied at most once, arrives as an rvalue
				OP("Arg from an lvalue"); int copies{-1}, got{-1}; auto l{[&](Arg x) { copies = x.copies; got = x.v; ++n_events; return 9; }}; ptl::function_ref<SIG(Arg)> f{l}; n_events = 0; const int x{SUT(f(a))};
				CHECK("C19", "forward-value", x == 9 && n_events == 1 && got == v && copies <= 1 && a.v == v, "an argument passed by value is copied %d times or arrives with value %d, expected %d", copies, got, v); HIT("by-value arguments"); break; }
			case 4: { OP("Arg from an rvalue"); int copies{-1}, got{-1}; auto l{[&](Arg x) { copies = x.copies; got = x.v; ++n_events; return 9; }}; ptl::function_ref<SIG(Arg)> f{l}; n_events = 0; const int x{r.chance(1, 2) ? SUT(f(std::move(a))) : SUT(f(Arg{v}))};
				CHECK("C19", "forward-rvalue", x == 9 && n_events == 1 && got == v && copies == 0, "an rvalue argument passed by value is copied %d times or arrives with value %d, expected %d", copies, got, v); break; }
			case 5: { OP("Arg to overloads"); ptl::function_ref<SIG(Arg)> f{t}; n_events = 0; const int x{SUT(f(a))}; CHECK("C19", "forward-value-category", x == base + 3 && n_events == 1 && last.kind == k + rref && last.val == v, "an argument passed by value does not reach the callable as an rvalue"); break; }
			default: { // many arguments, in order
				OP("many arguments"); MoveOnly m{v}; const void * p{m.p.get()}; double d{0}; std::string s(50, 'x'); const std::string * sp{nullptr}; int got[4]{}; const void * gp{nullptr}; 
				auto l{[&](int a1, double & b, const std::string & c, MoveOnly e, char g, MoveOnly && i, std::string j) { got[0] = a1; b = 2.5; sp = &c; gp = e.p.get(); got[1] = g; got[2] = *i.p; got[3] = j.size(); ++n_events; return 11; }};
				MoveOnly m2{8}; const int * keep{m2.p.get()};
				ptl::function_ref<SIG(int, double &, const std::string &, MoveOnly, char, MoveOnly &&, std::string)> f{l}; n_events = 0;
				const int x{f(v, d, s, std::move(m), 'q', std::move(m2), std::string(77, 'y'))};
				CHECK("C19", "many-arguments", x == 11 && n_events == 1 && got[0] == v && d == 2.5 && sp == &s && gp == p && got[1] == 'q' && got[2] == 8 && got[3] == 77 && m2.p.get() == keep && s.size() == 50, "arguments of a call do not arrive in order and unchanged"); HIT("move-only arguments"); }
		}
		state(h.h);
	}
	// results of every kind and exceptions
	// every count of arguments with every kind of result
	template<typename... As> long sum(const As &... as) { long s{0}, k{1}; ((s += k * static_cast<long>(as), k *= 10), ...); return s; }
	template<typename Res> struct Count { int & calls; long & seen; Res * res; template<typename... As> Res & operator()(As... as) const { ++calls; seen = sum(as...); return *res; } };
	template<> struct Count<void> { int & calls; long & seen; void * res; template<typename... As> void operator()(As... as) const { ++calls; seen = sum(as...); } };
	template<typename Res, typename... As> void arity(Res * res, As... as) {
		int calls{0}; long seen{-1}; using Ret = std::conditional_t<std::is_void_v<Res>, void, std::add_lvalue_reference_t<Res>>; const Count<Res> target{calls, seen, res};
		const auto judge{[&](auto f) { calls = 0; seen = -1; bool same{true}; if constexpr(std::is_void_v<Res>) SUT((f(as...), 0)); else same = std::addressof(SUT(f(as...))) == res; CHECK("C19", "arity", calls == 1 && seen == sum(as...) && same, "a call with %zu arguments made %d calls, which received %ld instead of %ld", sizeof...(as), calls, seen, sum(as...)); }};
		judge(ptl::function_ref<Ret(As...)>{target}); judge(ptl::function_ref<Ret(As...) const>{target});
		const auto swallow{[&](As... x) noexcept -> Ret { ++calls; seen = sum(x...); if constexpr(!std::is_void_v<Res>) return *res; }}; judge(ptl::function_ref<Ret(As...) noexcept>{swallow}); judge(ptl::function_ref<Ret(As...) const noexcept>{swallow});
		{ calls = 0; seen = -1; ptl::function_ref<void(As...)> drop{swallow}; SUT((drop(as...), 0)); CHECK("C19", "arity", calls == 1 && seen == sum(as...), "a call with %zu arguments and an ignored result made %d calls", sizeof...(as), calls); }
			}
	void arities(Rng & r) {
		OP("arities"); const int a{static_cast<int>(r.below(9))}; const long b{static_cast<long>(r.below(9))}; const char c{static_cast<char>(r.below(9))}; const unsigned char d{static_cast<unsigned char>(r.below(9))}; const short e{static_cast<short>(r.below(9))}; double f{static_cast<double>(r.below(9))}; int res{5};
		const auto all{[&](auto * p) { arity(p); arity(p, a); arity(p, a, b); arity(p, a, b, c); arity(p, a, b, c, d); arity(p, a, b, c, d, e); arity(p, a, b, c, d, e, f); arity(p, f, e, d, c, b, a, a); arity(p, a, a, a, a, a, a, a, b); arity(p, c, f, c, f, c, f, c, f, c, f, c, f); }};
		all(&res); all(static_cast<const int *>(&res)); all(static_cast<void *>(nullptr)); HIT("every arity"); Hash h; h.add("arity", 5); h.add(a); h.add(b); state(h.h);
	}
	struct Base { int b{1}; virtual ~Base() =default; }; struct Mid { long m{2}; }; struct Derived : Mid, Base { };
	int global{5}; int & globalref() { ++n_events; return global; } const int & globalcref(int) { ++n_events; return global; }
	void results(Rng & r) {
		Hash h; h.add("results", 7); n_events = 0;
		switch(const auto w{r.below(11)}; h.add(w), w) {
			case 0: { OP("int &"); int x{4}; auto l{[&]() -> int & { ++n_events; return x; }}; ptl::function_ref<int &()> f{l}; CHECK("C19", "result-ref", &SUT(f()) == &x && n_events == 1, "a reference result designates another object"); ptl::function_ref<int &()> g{globalref}; CHECK("C19", "result-ref", &SUT(g()) == &global, "a reference result designates another object"); SUT(g()) = 6; CHECK("C19", "result-ref", global == 6, "a reference result is not the original"); break; }
			case 1: { OP("const int &"); const int x{4}; auto l{[&]() -> const int & { ++n_events; return x; }}; ptl::function_ref<const int &() const> f{l}; const int & y{SUT(f())}; CHECK("C19", "result-cref", &y == &x && n_events == 1, "a const reference result designates another object"); ptl::function_ref<const int &(int)> g{globalcref}; CHECK("C19", "result-cref", &SUT(g(1)) == &global, "a const reference result designates another object"); HIT("reference results"); break; }
			case 2: { OP("const string & from string &"); std::string x(60, 's'); auto l{[&]() -> std::string & { ++n_events; return x; }}; ptl::function_ref<const std::string &()> f{l}; CHECK("C19", "result-cref", &SUT(f()) == &x && n_events == 1, "a const reference result designates another object"); break; }
			case 3: { OP("base &"); Derived d; auto l{[&]() -> Derived & { ++n_events; return d; }}; ptl::function_ref<Base &()> f{l}; CHECK("C19", "result-base", &SUT(f()) == static_cast<Base *>(&d) && n_events == 1, "a reference result designates another object"); ptl::function_ref<Base *()> g{r.chance(1, 2) ? +[]() -> Base * { return nullptr; } : +[]() -> Base * { return nullptr; }}; CHECK("C19", "result-pointer", SUT(g()) == nullptr, "a pointer result differs"); break; }
			case 4: { OP("T &&"); MoveOnly m{3}; auto l{[&]() -> MoveOnly && { ++n_events; return std::move(m); }}; ptl::function_ref<MoveOnly &&()> f{l}; MoveOnly && y{SUT(f())}; CHECK("C19", "result-rref", &y == &m && m.p && n_events == 1, "an rvalue reference result designates another object"); break; }
			case 5: { OP("void"); int x{0}; auto l{[&] { ++x; ++n_events; return std::string(40, 'v'); }}; ptl::function_ref<void()> f{l}; f(); CHECK("C19", "result-void", x == 1 && n_events == 1, "a call with an ignored result made %d calls", x); break; }
			case 6: { OP("move-only result"); auto l{[&] { ++n_events; return MoveOnly{17}; }}; ptl::function_ref<MoveOnly()> f{l}; const auto m{f()}; CHECK("C19", "result-move-only", m.p && *m.p == 17 && n_events == 1, "a move-only result differs"); break; }
			case 7: { OP("pinned result"); auto l{[&] { ++n_events; return Pinned{18}; }}; ptl::function_ref<Pinned() const> f{l}; const auto m{SUT(f())}; CHECK("C19", "result-pinned", m.v == 18 && n_events == 1, "a result that cannot be moved differs"); break; }
			case 8: { OP("converted result"); auto l{[&](const char * s) { ++n_events; return s; }}; ptl::function_ref<std::string(const char *)> f{l}; CHECK("C19", "result-converted", f("forty two") == "forty two" && n_events == 1, "a converted result differs"); ptl::function_ref<double(const char *)> g{*+[](const char * s) -> int { return s[0]; }}; CHECK("C19", "result-converted", SUT(g("A")) == 65.0, "a converted result differs"); break; }
			case 9: { OP("copied result"); Arg a{3}; auto l{[&]() -> Arg { ++n_events; return a; }}; ptl::function_ref<Arg()> f{l}; const Arg x{SUT(f())}; CHECK("C19", "result-copies", x.v == 3 && x.copies == 1 && n_events == 1, "a result is copied %d times", x.copies); break; }
			default: { OP("exceptions"); int calls{0}; auto l{[&](int v) -> int { ++calls; throw Thrown{v}; }}; ptl::function_ref<int(int)> f{l}; ptl::function_ref<int(int) const> g{f}; int got{-1}; try { SUT(g(5)); } catch(const Thrown & t) { got = t.v; } CHECK("C19", "exception", got == 5 && calls == 1, "an exception of the callable does not reach the caller, or it was called %d times", calls); HIT("exceptions propagated"); }
		}
		state(h.h);
	}
	// function_refs to function_refs, recursion, rebinding during a call
	using LL = ptl::function_ref<long(long)>;
	void nested(Rng & r) {
		OP("nested");
		Fun<0> a{1}, b{2};
		ptl::function_ref<long(long)> inner{a}; 
		ptl::function_ref<long(long) const> outer{inner}; // refers to inner
		one(outer, "a wrapped function_ref", std::addressof(a), mut, 3, 1003);
		inner = LL{b}; one(outer, "a wrapped function_ref that was rebound", std::addressof(b), mut, 4, 2004);
		const auto copy{inner}; ptl::function_ref<long(long)> direct{copy}; // same signature: a copy, not a wrapper
		inner = LL{a}; one(direct, "a copy", std::addressof(b), mut, 5, 2005);
		std::size_t depth{0}; const std::size_t most{r.range(1, 200)};
		struct Fact { std::size_t & depth; const std::size_t most; long operator()(const ptl::function_ref<long(long)> & self, long n) const { ++depth; return n <= 0 ? 1 : 1 + self(n - 1); } };
		const Fact fact{depth, most}; ptl::function_ref<long(long)> * self{nullptr};
		auto rec{[&](long n) { return fact(*self, n); }}; ptl::function_ref<long(long)> recr{rec}; self = &recr;
		CHECK("C19", "recursion", SUT(recr(static_cast<long>(most))) == static_cast<long>(most) + 1 && depth == most + 1, "a recursive call through a function_ref made %zu calls, expected %zu", depth, most + 1);
		// rebinding the function_ref from inside a call must not affect the call in progress
		ptl::function_ref<long(long)> f{a}; auto rebind{[&](long v) { f = LL{b}; ++n_events; return v + 1; }}; f = ptl::function_ref<long(long)>{rebind}; n_events = 0;
		const long x{SUT(f(10))}; CHECK("C19", "rebind-inside", x == 11 && n_events == 1, "rebinding during a call changed the call"); one(f, "rebound inside a call", std::addressof(b), mut, 6, 2006);
		std::vector<ptl::function_ref<long(long)>> many; Fun<0> * objs[8]; std::vector<std::unique_ptr<Fun<0>>> own; for(int i{0}; i < 8; ++i) { own.emplace_back(new Fun<0>{10 + i}); objs[i] = own.back().get(); many.emplace_back(*objs[i]); }
		for(int i{0}; i < 20; ++i) { const auto k{r.below(8)}; if(r.chance(1, 3)) { const auto l{r.below(8)}; std::swap(many[k], many[l]); std::swap(objs[k], objs[l]); } one(many[k], "one of many", objs[k], mut, i, objs[k]->id * 1000 + i); }
		ptl::function_ref fd{f0}; static_assert(std::is_same_v<decltype(fd), ptl::function_ref<long(long)>>); one(fd, "a deduced function_ref", nullptr, fn0, 2, 12);
		Hash h; h.add("nested", 6); h.add(most); state(h.h); HIT("nested function_refs");
	}
	struct Poly { virtual ~Poly() =default; virtual int operator()(int v) { return v; } }; struct PolyA : Mid, Poly { int k{3}; int operator()(int v) override { ++n_events; return v + k; } };
	struct MutOnly { int operator()(int v) { return v; } }; struct ConstOnly { int operator()(int v) const { return v; } }; struct Never { int operator()(int v) const noexcept { return v; } }; struct NeverMut { int operator()(int v) noexcept { return v; } int operator()(int v) const { return v; } };
	struct Two { int operator()(int, int) const noexcept { return 0; } }; struct Text { std::string operator()(int) const noexcept { return {}; } };
	int may_throw(int v) { return v; } int never(int v) noexcept { return v; }
	void offered(Rng &) { // which callables can be bound to which signatures
		OP("constraints");
		using F = ptl::function_ref<int(int)>; using C = ptl::function_ref<int(int) const>; using N = ptl::function_ref<int(int) noexcept>; using K = ptl::function_ref<int(int) const noexcept>;
		const auto lambda{[](int v) { return v; }}; const auto quiet{[](int v) noexcept { return v; }}; using L = decltype(lambda); using Q = decltype(quiet);
		CHECK("C19", "const-only", (!std::is_constructible_v<C, MutOnly &> && !std::is_constructible_v<K, MutOnly &> && !std::is_constructible_v<F, const MutOnly &> && !std::is_constructible_v<C, const MutOnly &> && std::is_constructible_v<F, MutOnly &> && std::is_constructible_v<F, const ConstOnly &> && std::is_constructible_v<C, ConstOnly &>), "a callable that cannot be called as const is bound as const");
		CHECK("C19", "noexcept-only", (!std::is_constructible_v<N, L &> && !std::is_constructible_v<K, L &> && !std::is_constructible_v<N, ConstOnly &> && !std::is_constructible_v<K, NeverMut &> && !std::is_constructible_v<N, const NeverMut &> && !std::is_constructible_v<N, decltype(may_throw) *> && !std::is_constructible_v<K, decltype(may_throw) *> && !std::is_constructible_v<N, Text &> && !std::is_constructible_v<N, F &> && !std::is_constructible_v<N, std::function<int(int)> &>), "a callable that may throw is bound to a noexcept signature");
		CHECK("C19", "noexcept-bound", (std::is_constructible_v<N, Q &> && std::is_constructible_v<K, Q &> && std::is_constructible_v<N, NeverMut &> && std::is_constructible_v<K, Never &> && std::is_constructible_v<N, decltype(never) *> && std::is_constructible_v<F, decltype(never) *> && std::is_constructible_v<F, NeverMut &>), "a callable that never throws is not bound");
		CHECK("C19", "signature", (!std::is_constructible_v<F, Two &> && !std::is_constructible_v<F, Text &> && !std::is_constructible_v<F, int &> && !std::is_constructible_v<F, void(*)(int)> && std::is_constructible_v<ptl::function_ref<void(int)>, Text &>), "a callable of another signature is bound");
		CHECK("C19", "assigned", (!std::is_assignable_v<F &, L &> && !std::is_assignable_v<F &, MutOnly> && std::is_assignable_v<F &, const F &>), "a function_ref is assigned from a callable that may be a temporary");
		CHECK("C19", "noexcept-call", (noexcept(std::declval<const N &>()(1)) && noexcept(std::declval<const K &>()(1)) && !noexcept(std::declval<const F &>()(1)) && !noexcept(std::declval<const C &>()(1))), "a call is noexcept although its signature is not, or the other way round");
		HIT("constraints"); state(0xC1);
	}
	void shapes(Rng & r) { // callables of unusual shape
		OP("shapes"); n_events = 0;
		PolyA p; Poly & base{p}; ptl::function_ref<int(int)> f{base}; CHECK("C19", "virtual", SUT(f(4)) == 7 && n_events == 1, "a call through a base class reference is wrong");
		struct Final final { int calls{0}; int operator()() { return ++calls; } }; Final fin; ptl::function_ref<int()> g{fin}; SUT(g()); SUT(g()); CHECK("C19", "stateful", fin.calls == 2 && SUT(g()) == 3, "a stateful callable is not called on the original object");
		std::function<int(int)> sf{[](int v) { ++n_events; return v * 2; }}; ptl::function_ref<int(int)> h{sf}; CHECK("C19", "std-function", SUT(h(21)) == 42, "a call of a std::function is wrong"); sf = [](int v) { return v * 3; }; CHECK("C19", "std-function", SUT(h(21)) == 63, "a call does not see the change of the original callable");
		int counter{0}; auto mutating{[counter]() mutable { return ++counter; }}; ptl::function_ref<int()> m{mutating}; SUT(m()); SUT(m()); CHECK("C19", "mutable-lambda", mutating() == 3, "a mutable lambda is not called on the original object");
		auto generic{[](auto && x) { return static_cast<long>(sizeof x); }}; ptl::function_ref<long(char)> gc{generic}; ptl::function_ref<long(double)> gd{generic}; CHECK("C19", "generic", SUT(gc('x')) == 1 && SUT(gd(1.0)) == 8, "a generic lambda is called with other argument types");
		struct alignas(64) Big { char data[200]; int operator()(int i) const { return data[i]; } }; Big big; for(int i{0}; i < 200; ++i) big.data[i] = static_cast<char>(i % 100); ptl::function_ref<int(int) const> b{big}; const int i{static_cast<int>(r.below(200))}; CHECK("C19", "big", SUT(b(i)) == i % 100, "a call on a large callable is wrong");
		auto temp{[](ptl::function_ref<int(int)> x, int v) { return x(v); }}; CHECK("C19", "temporary", SUT(temp([&](int v) { return v + i; }, 5)) == 5 + i, "a temporary callable bound for the duration of a call is wrong"); CHECK("C19", "temporary", SUT(temp(*+[](int v) { return v - 1; }, 5)) == 4, "a function bound for the duration of a call is wrong");
		state(0x51); HIT("unusual callables");
	}
}
SCENARIO("function_ref bindings", "C19", plain, 6);
SCENARIO("function_ref bindings, const signature", "C19", constant, 6);
SCENARIO("function_ref noexcept", "C19", (nothrow<long(long) noexcept, false>), 1);
SCENARIO("function_ref const noexcept", "C19", (nothrow<long(long) const noexcept, true>), 1);
SCENARIO("function_ref arguments", "C19", arguments<false>, 4);
SCENARIO("function_ref arguments, const signature", "C19", arguments<true>, 4);
SCENARIO("function_ref results", "C19", results, 5);
SCENARIO("function_ref arities", "C19", arities, 1); REQUIRE("C19", "every arity");
SCENARIO("function_ref nested", "C19", nested, 2);
SCENARIO("function_ref shapes", "C19", shapes, 1);
SCENARIO("function_ref constraints", "C19", offered, 1); REQUIRE("C19", "constraints");
REQUIRE("C19", "const functor bound"); REQUIRE("C19", "function bound"); REQUIRE("C19", "function pointer bound"); REQUIRE("C19", "function_ref copied"); REQUIRE("C19", "function_ref assigned"); REQUIRE("C19", "const signatures"); REQUIRE("C19", "noexcept signatures"); REQUIRE("C19", "by-value arguments"); REQUIRE("C19", "move-only arguments"); REQUIRE("C19", "reference results"); REQUIRE("C19", "exceptions propagated"); REQUIRE("C19", "nested function_refs"); REQUIRE("C19", "unusual callables"); REQUIRE("C19", "converted argument and result");
