// With every allocation refused: operations that need no memory complete with their documented result, the others report it by an exception.
#include <algorithm>
#include <exception>
#include <memory>
#include <new>
#include <stdexcept>
#include "../rt/heap.hpp"
#include "../rt/programs.hpp"

namespace {
	using namespace mon; using namespace world; using WP = world::P; using WM = world::M; using WRng = world::Rng;
	char text_buf[64]; int ints_buf[16];
	struct Setup { Setup() { for(std::size_t i{0}; i < sizeof text_buf; ++i) text_buf[i] = static_cast<char>('A' + i % 26); for(int i{0}; i < 16; ++i) ints_buf[i] = i * 7; world::ctx = {text_buf, sizeof text_buf, ints_buf, 16}; } } setup;
	struct Exhausted { Exhausted() { heap::fail_all = true; } ~Exhausted() { heap::fail_all = false; } };
	// needs no memory
	template<typename F> bool calm(const char * type, const char * what, F && f) {
		OP("%s: %s without memory", type, what); HIT("operations that need no memory");
		const auto before{heap::refused}; bool ok{true}; const char * with{""};
		{ Exhausted e; heap::Sut s; try { f(); } catch(const std::bad_alloc &) { ok = false; with = "std::bad_alloc"; } catch(...) { ok = false; with = "something"; } }
		CHECK("C25", "throws", ok, "%s: %s throws %s when memory is exhausted", type, what, with);
		if(heap::refused != before) HIT("of these, refused an allocation on the way");
		Hash h; h.add(type, std::strlen(type)); h.add(what, std::strlen(what)); state(h.h);
		return ok && !poisoned;
	}
	// may need memory: completes or throws something that is caught
	template<typename F> bool may(const char * type, const char * what, F && f) {
		OP("%s: %s without memory (may fail)", type, what); bool done{true}, proper{true};
		{ Exhausted e; heap::Sut s; try { f(); } catch(const std::bad_alloc &) { done = false; } catch(const std::length_error &) { done = false; } catch(...) { proper = done = false; } }
		CHECK("C25", "exception", proper, "%s: %s reports exhausted memory by an exception that is not derived from std::bad_alloc", type, what);
		if(done) HIT("operations that could do without"); else HIT("failures reported by an exception");
		Hash h; h.add(type, std::strlen(type)); h.add(what, std::strlen(what)); h.add(done); state(h.h);
		return done && !poisoned;
	}
	char buf[2][1 << 16];
	template<typename D> struct Twin {
		using T = Type<WP, D>; using U = Type<WM, D>;
		alignas(T) unsigned char mem[sizeof(T)]; T * p; std::unique_ptr<U> m; bool alive{true};
		static T & make(unsigned char * mem, std::uint64_t seed) { WRng q{seed}; depth = 0; return *SUT(::new(mem) T(Do<WP, D>::gen(q))); }
		explicit Twin(mon::Rng & r) { const auto seed{r.next()}; p = &make(mem, seed); WRng q{seed}; depth = 0; m.reset(new U(Do<WM, D>::gen(q))); }
		Twin(const Twin &) =delete;
		~Twin() { if(alive) SUT((p->~T(), 0)); }
	};
	template<typename D> void same(const char * type, const char * what, const Type<WP, D> & p, const Type<WM, D> & m) {
		if(poisoned) return; world::Out a{buf[0], sizeof buf[0]}, b{buf[1], sizeof buf[1]};
		if(!calm(type, "iteration and access", [&] { Do<WP, D>::dump(p, a); })) return;
		Do<WM, D>::dump(m, b);
		CHECK("C25", "result", a.n == b.n && std::memcmp(a.buf, b.buf, a.n) == 0, "%s: %s completes without memory with another result: %.*s instead of %.*s", type, what, static_cast<int>(a.n > 300 ? 300 : a.n), a.buf, static_cast<int>(b.n > 300 ? 300 : b.n), b.buf);
	}
	#define SAME(what, p, m) same<D>(type, what, p, m)
	template<typename D> void compare_two(const char * type, const Twin<D> & a, const Twin<D> & b) { int x{0}; if(calm(type, "comparison", [&] { x = Do<WP, D>::cmp(*a.p, *b.p); })) CHECK("C25", "result", (x == Do<WM, D>::cmp(*a.m, *b.m)), "%s: comparison without memory has another result", type); }

	// for every type
	template<typename D> void any(mon::Rng & r, const char * type) {
		using T = Type<WP, D>; Twin<D> a{r}, b{r}; alignas(T) unsigned char mem[sizeof(T)];
		compare_two(type, a, b); compare_two(type, a, a); if(poisoned) return;
		for(std::size_t i{0}, n{1 + r.below(4)}; i < n && !poisoned; ++i) switch(r.below(5)) {
			case 0: if(calm(type, "swap member", [&] { a.p->swap(*b.p); })) { a.m.swap(b.m); SAME("swap", *a.p, *a.m); SAME("swap", *b.p, *b.m); } break;
			case 1: if(calm(type, "swap function", [&] { using std::swap; swap(*a.p, *b.p); })) { a.m.swap(b.m); SAME("swap", *a.p, *a.m); SAME("swap", *b.p, *b.m); } break;
			case 2: if(calm(type, "std::swap", [&] { std::swap(*a.p, *b.p); })) { a.m.swap(b.m); SAME("std::swap", *a.p, *a.m); SAME("std::swap", *b.p, *b.m); } break;
			case 3: { T * t{nullptr}; if(calm(type, "move construction", [&] { t = ::new(mem) T(std::move(*a.p)); })) { SAME("move construction", *t, *a.m); if(poisoned) return; if(calm(type, "destruction of a moved-from object", [&] { a.p->~T(); })) { if(calm(type, "move construction", [&] { a.p = ::new(a.mem) T(std::move(*t)); })) { SAME("move construction", *a.p, *a.m); calm(type, "destruction of a moved-from object", [&] { t->~T(); }); } } } break; }
			default: if(calm(type, "move assignment", [&] { *b.p = std::move(*a.p); })) { *b.m = *a.m; SAME("move assignment", *b.p, *b.m); if(calm(type, "move assignment to a moved-from object", [&] { *a.p = std::move(*b.p); })) { SAME("move assignment", *a.p, *a.m); if(calm(type, "swap with a moved-from object", [&] { a.p->swap(*b.p); a.p->swap(*b.p); })) SAME("swap", *a.p, *a.m); } Twin<D> c{r}; SUT((*b.p = *c.p, 0)); *b.m = *c.m; } }
		if(poisoned) return;
		{ alignas(T) unsigned char m2[sizeof(T)]; const auto x{*a.m}; T * t{nullptr}; if(may(type, "copy construction", [&] { t = ::new(m2) T(std::as_const(*a.p)); })) { SAME("copy construction", *t, x); calm(type, "destruction", [&] { t->~T(); }); } SAME("a copy construction", *a.p, *a.m); }
		if(poisoned) return;
		if(may(type, "copy assignment", [&] { *b.p = std::as_const(*a.p); })) SAME("copy assignment", *b.p, *a.m);
		if(poisoned) return;
		if(calm(type, "destruction", [&] { a.p->~T(); b.p->~T(); })) a.alive = b.alive = false;
		HIT("types exercised");
	}
	// anything random: completes with the model's result or throws
	template<typename D> void mutations(mon::Rng & r, const char * type) {
		Twin<D> a{r}, b{r};
		for(int i{0}; i < 12 && !poisoned; ++i) { const auto seed{r.next()}; depth = 0; WRng q{seed}; const bool done{may(type, "a random mutation", [&] { Do<WP, D>::mutate(*a.p, *b.p, q); })}; if(!done) { depth = 0; return; } WRng q2{seed}; depth = 0; Do<WM, D>::mutate(*a.m, *b.m, q2); if(q.s == q2.s) { SAME("a mutation", *a.p, *a.m); } else return; }
	}
	// ---------------------------------------------------------------- particular operations
	template<typename M> std::string_view view(const M & m) { return {m.data(), m.size()}; }
	void string_ops(mon::Rng & r) {
		using D = S; const char * type{"string"}; using str = ptl::string;
		Twin<S> a{r}; auto & p{*a.p}; auto & m{*a.m}; if(r.chance(1, 2)) SUT((p.reserve(r.below(120)), 0));
		for(std::size_t i{0}; i < 10 && !poisoned; ++i) {
			const auto n{m.size()}; const auto f{r.below(n + 1)}, g{f + r.below(n - f + 1)}; const auto fi{static_cast<std::ptrdiff_t>(f)}, gi{static_cast<std::ptrdiff_t>(g)}; const auto room{p.capacity() - n}, k{r.chance(1, 3) ? room : r.below(room + 1)}; const std::string arg(k, static_cast<char>('a' + i)); const std::string_view v{arg}; const std::list<char> l(v.begin(), v.end());
			switch(r.below(30)) {
				case 0: if(calm(type, "pop_back", [&] { if(n) p.pop_back(); })) { if(n) m.pop_back(); SAME("pop_back", p, m); } break;
				case 1: if(calm(type, "erase", [&] { p.erase(p.begin() + fi, p.begin() + gi); })) { m.erase(f, g - f); SAME("erase", p, m); } break;
				case 2: if(n && f < n && calm(type, "erase one", [&] { p.erase(p.begin() + fi); })) { m.erase(f, 1); SAME("erase one", p, m); } break;
				case 3: if(r.chance(1, 4) && calm(type, "clear", [&] { p.clear(); })) { m.clear(); SAME("clear", p, m); } break;
				case 4: if(calm(type, "shrink_to_fit", [&] { p.shrink_to_fit(); })) { SAME("shrink_to_fit", p, m); CHECK("C25", "result", p.capacity() >= p.size(), "capacity below size"); } break;
				case 5: if(calm(type, "append of a view in place", [&] { p.append(v); })) { m.append(v); SAME("append", p, m); } break;
				case 6: if(calm(type, "append of characters in place", [&] { p.append(k, 'c'); })) { m.append(k, 'c'); SAME("append", p, m); } break;
				case 7: if(calm(type, "append of a range in place", [&] { p.append(l.begin(), l.end()); })) { m.append(v); SAME("append", p, m); } break;
				case 8: if(may(type, "append of single pass iterators", [&] { p.append(programs::Input{l.begin()}, programs::Input{l.end()}); })) { m.append(v); SAME("append", p, m); } else SAME("a failed append", p, m); break;
				case 9: if(room && calm(type, "push_back in place", [&] { p.push_back('p'); })) { m.push_back('p'); SAME("push_back", p, m); } break;
				case 10: if(calm(type, "insert of a view in place", [&] { p.insert(p.begin() + fi, v); })) { m.insert(f, v); SAME("insert", p, m); } break;
				case 11: if(calm(type, "insert of characters in place", [&] { p.insert(p.begin() + fi, k, 'i'); })) { m.insert(f, k, 'i'); SAME("insert", p, m); } break;
				case 12: if(calm(type, "insert of a range in place", [&] { p.insert(p.begin() + fi, l.begin(), l.end()); })) { m.insert(f, v); SAME("insert", p, m); } break;
				case 13: if(room && calm(type, "insert of a character in place", [&] { p.insert(p.begin() + fi, 'I'); })) { m.insert(f, 1, 'I'); SAME("insert", p, m); } break;
				case 14: if(calm(type, "replace in place", [&] { p.replace(p.begin() + fi, p.begin() + gi, v); })) { m.replace(f, g - f, v); SAME("replace", p, m); } break;
				case 15: if(calm(type, "replace by characters in place", [&] { p.replace(p.begin() + fi, p.begin() + gi, k, 'r'); })) { m.replace(f, g - f, k, 'r'); SAME("replace", p, m); } break;
				case 16: if(calm(type, "resize in place", [&] { p.resize(n + k); })) { m.resize(n + k); SAME("resize", p, m); } break;
				case 17: if(calm(type, "resize in place with a value", [&] { p.resize(n + k, 'R'); })) { m.resize(n + k, 'R'); SAME("resize", p, m); } break;
				case 18: if(calm(type, "resize to less", [&] { p.resize(f); })) { m.resize(f); SAME("resize", p, m); } break;
				case 19: if(calm(type, "reserve of what is there", [&] { p.reserve(n + k); })) SAME("reserve", p, m); break;
				case 20: if(calm(type, "assign of a view in place", [&] { p.assign(v); })) { m.assign(v); SAME("assign", p, m); } break;
				case 21: if(calm(type, "assign of characters in place", [&] { p.assign(k, 'A'); })) { m.assign(k, 'A'); SAME("assign", p, m); } break;
				case 22: { str t; if(calm(type, "substr of an rvalue", [&] { t = std::move(p).substr(f); })) { m = m.substr(f); SAME("substr&&", t, m); if(calm(type, "move assignment", [&] { p = std::move(t); })) SAME("move assignment", p, m); } break; }
				case 23: { str t; if(calm(type, "substr of an rvalue", [&] { t = std::move(p).substr(f, g - f); })) { m = m.substr(f, g - f); SAME("substr&&", t, m); if(calm(type, "move assignment", [&] { p = std::move(t); })) SAME("move assignment", p, m); } break; }
				case 24: { std::size_t h{0}; const auto want{std::hash<str>{}(str{view(m)})}; if(calm(type, "hash", [&] { h = std::hash<str>{}(p); })) CHECK("C25", "result", h == want, "hash without memory has another result"); break; }
				case 25: { int x{0}; const auto w{view(m).substr(0, f)}; if(calm(type, "comparison with a view", [&] { x = (p == w) | (p != w) << 1 | (p < w) << 2 | (p > w) << 3 | (w == p) << 4 | (w <= p) << 5; })) CHECK("C25", "result", x == ((view(m) == w) | (view(m) != w) << 1 | (view(m) < w) << 2 | (view(m) > w) << 3 | (w == view(m)) << 4 | (w <= view(m)) << 5), "comparison with a view without memory has another result"); break; }
				case 26: if(n <= 22 && may(type, "construction of a short text", [&] { str t{view(m)}; str u{t}; str w(u.begin(), u.end()); CHECK("C25", "result", view(w) == view(m), "short text differs"); })) {} break;
				case 27: { const auto cap{p.capacity()}; const std::string big(cap - n + 1 + r.below(100), 'b'); if(may(type, "append beyond the capacity", [&] { p.append(big); })) { m.append(big); SAME("append", p, m); } else SAME("a failed append", p, m); break; }
				case 28: if(may(type, "concatenation", [&] { const auto t{p + std::string_view{"0123456789012345678901234567890123456789"}}; CHECK("C25", "result", t.size() == n + 40, "concatenation"); })) {} if(!poisoned) SAME("a concatenation", p, m); break;
				default: if(may(type, "reserve", [&] { p.reserve(n + 200 + k); })) {} SAME("reserve", p, m); break;
			}
		}
		if(!poisoned && calm(type, "destruction", [&] { p.~str(); })) a.alive = false;
		HIT("string operations");
	}
	template<typename E> void vector_ops(mon::Rng & r, const char * type) {
		using D = Vec<E>; using T = Type<WP, D>; using V = Type<WP, E>; using W = Type<WM, E>;
		Twin<D> a{r}; auto & p{*a.p}; auto & m{*a.m}; if(r.chance(2, 3)) SUT((p.reserve(r.below(30)), 0));
		for(std::size_t i{0}; i < 10 && !poisoned; ++i) {
			const auto n{m.size()}; const auto f{r.below(n + 1)}, g{f + r.below(n - f + 1)}; const auto fi{static_cast<std::ptrdiff_t>(f)}, gi{static_cast<std::ptrdiff_t>(g)}; const auto room{p.capacity() - n}; Twin<E> x{r}; const W val{*x.m};
			switch(r.below(16)) {
				case 0: if(n && calm(type, "pop_back", [&] { p.pop_back(); })) { m.pop_back(); SAME("pop_back", p, m); } break;
				case 1: if(f != g && calm(type, "erase", [&] { p.erase(p.begin() + fi, p.begin() + gi); })) { m.erase(m.begin() + fi, m.begin() + gi); SAME("erase", p, m); } break;
				case 2: if(f < n && calm(type, "erase one", [&] { p.erase(p.begin() + fi); })) { m.erase(m.begin() + fi); SAME("erase one", p, m); } break;
				case 3: if(r.chance(1, 4) && calm(type, "clear", [&] { p.clear(); })) { m.clear(); SAME("clear", p, m); } break;
				case 4: if(calm(type, "shrink_to_fit", [&] { p.shrink_to_fit(); })) SAME("shrink_to_fit", p, m); break;
				case 5: if(room && calm(type, "push_back in place", [&] { p.push_back(std::move(*x.p)); })) { m.push_back(val); SAME("push_back", p, m); } break;
				case 6: if(room && calm(type, "emplace_back in place", [&] { p.emplace_back(std::move(*x.p)); })) { m.push_back(val); SAME("emplace_back", p, m); } break;
				case 7: if(room && calm(type, "insert in place", [&] { p.insert(p.begin() + fi, std::move(*x.p)); })) { m.insert(m.begin() + fi, val); SAME("insert", p, m); } break;
				case 8: if(room && calm(type, "emplace in place", [&] { p.emplace(p.begin() + fi, std::move(*x.p)); })) { m.insert(m.begin() + fi, val); SAME("emplace", p, m); } break;
				case 9: { const auto k{r.below(room + 1)}; if(calm(type, "resize in place", [&] { p.resize(n + k); })) { m.resize(n + k); SAME("resize", p, m); } break; }
				case 10: if(calm(type, "resize to less", [&] { p.resize(f); })) { m.resize(f); SAME("resize", p, m); } break;
				case 11: if(calm(type, "reserve of what is there", [&] { p.reserve(n + r.below(room + 1)); })) SAME("reserve", p, m); break;
				case 12: if constexpr(std::is_trivially_copyable_v<V>) { const auto k{r.below(room + 1)}; const V c{*x.p}; if(calm(type, "insert of copies in place", [&] { p.insert(p.begin() + fi, k, c); })) { m.insert(m.begin() + fi, k, val); SAME("insert", p, m); } } break;
				case 13: if constexpr(std::is_trivially_copyable_v<V>) { const auto k{r.below(room + 1)}; const std::list<V> l(k, *x.p); if(calm(type, "insert of a range in place", [&] { p.insert(p.begin() + fi, l.begin(), l.end()); })) { m.insert(m.begin() + fi, k, val); SAME("insert", p, m); } } break;
				case 14: { std::list<V> l; for(std::size_t j{0}; j < room + 1 + r.below(9); ++j) l.push_back(*x.p); const auto k{l.size()}; if(may(type, "insert beyond the capacity", [&] { p.insert(p.begin() + fi, l.begin(), l.end()); })) { m.insert(m.begin() + fi, k, val); } SAME("insert beyond the capacity", p, m); break; }
				default: { const auto k{p.capacity() + 1 + r.below(50)}; may(type, "reserve", [&] { p.reserve(k); }); SAME("reserve", p, m); if(!room && may(type, "push_back beyond the capacity", [&] { p.push_back(*x.p); })) m.push_back(val); SAME("push_back beyond the capacity", p, m); }
			}
		}
		if(!poisoned && calm(type, "destruction", [&] { p.~T(); })) a.alive = false;
		HIT("vector operations");
	}
	template<typename A, typename B> bool alike_elements(const A & a, const B & b) {
		if constexpr(std::is_arithmetic_v<A>) return a == b;
		else { if(a.size() != b.size()) return false; for(std::size_t i{0}; i < b.size(); ++i) if(!alike_elements(a[i], b[i])) return false; return true; }
	}
	// long contents: nothing that removes elements may need memory, however much is unused afterwards
	template<typename D, typename Grow> void removals(mon::Rng & r, const char * type, Grow && grow) {
		using T = Type<WP, D>; using U = Type<WM, D>; alignas(T) unsigned char mem[sizeof(T)]; T & p{*SUT(::new(mem) T)}; U m;
		const std::size_t n{r.range(50, 4000)}; SUT((grow(p, n), 0)); grow(m, n); if(r.chance(1, 3)) SUT((p.reserve(n * r.range(2, 20)), 0));
		for(int i{0}; i < 8 && !poisoned; ++i) {
			const auto n{m.size()}; const std::size_t left{r.chance(1, 2) ? r.below(n + 1) : r.below(n < 12 ? n + 1 : 12)}, f{r.below(left + 1)}; const auto fi{static_cast<std::ptrdiff_t>(f)}, gi{static_cast<std::ptrdiff_t>(f + n - left)};
			const auto alike{[&](const char * what) { CHECK("C25", "result", p.size() == m.size() && alike_elements(p, m), "%s: %s of a long one completes without memory with another result", type, what); }};
			switch(r.below(7)) {
				case 0: case 1: if(calm(type, "erase of many", [&] { p.erase(p.begin() + fi, p.begin() + gi); })) { m.erase(m.begin() + fi, m.begin() + gi); alike("erase"); } break;
				case 2: if(calm(type, "resize to much less", [&] { p.resize(left); })) { m.resize(left); alike("resize"); } break;
				case 3: if(calm(type, "many pop_back", [&] { for(auto k{n}; k > left; --k) p.pop_back(); })) { m.resize(left); alike("pop_back"); } break;
				case 4: if(r.chance(1, 3) && calm(type, "clear of many", [&] { p.clear(); })) { m.clear(); alike("clear"); } break;
				case 5: if(calm(type, "shrink_to_fit of many", [&] { p.shrink_to_fit(); })) alike("shrink_to_fit"); break;
				default: { const auto k{p.capacity()}; if(calm(type, "growth in place", [&] { p.resize(k); })) { m.resize(k); alike("resize"); } break; }
			}
		}
		if(!poisoned) { alignas(T) unsigned char m2[sizeof(T)]; T * t{nullptr}; if(calm(type, "move of a long one", [&] { t = ::new(m2) T(std::move(p)); p = std::move(*t); t->~T(); })) CHECK("C25", "result", p.size() == m.size() && alike_elements(p, m), "%s: a long one moved without memory differs", type); }
		if(!poisoned) calm(type, "destruction of a long one", [&] { p.~T(); });
		HIT("removals from long contents");
	}
	void long_ones(mon::Rng & r) {
		switch(r.below(3)) {
			case 0: removals<Vec<I>>(r, "vector<int>", [](auto & v, std::size_t n) { for(std::size_t i{0}; i < n; ++i) v.push_back(static_cast<int>(i * 7)); }); break;
			case 1: removals<S>(r, "string", [](auto & v, std::size_t n) { v.resize(n, 'x'); for(std::size_t i{0}; i < n; i += 3) v[i] = static_cast<char>('a' + i % 23); }); break;
			default: removals<Vec<Vec<I>>>(r, "vector<vector<int>>", [](auto & v, std::size_t n) { n = n / 8 + 20; v.resize(n); for(std::size_t i{0}; i < n; i += 2) v[i].push_back(static_cast<int>(i)); }); break;
		}
	}
	void optional_variant_ops(mon::Rng & r) {
		{ using D = Opt<S>; const char * type{"optional<string>"}; using O = ptl::optional<ptl::string>; Twin<D> a{r}; Twin<S> x{r}; const auto val{*x.m};
			switch(r.below(7)) { case 0: if(calm(type, "reset", [&] { a.p->reset(); })) { a.m->reset(); SAME("reset", *a.p, *a.m); } break; case 1: if(calm(type, "assignment of nullopt", [&] { *a.p = std::nullopt; })) { a.m->reset(); SAME("nullopt", *a.p, *a.m); } break; case 2: if(calm(type, "assignment of an rvalue", [&] { *a.p = std::move(*x.p); })) { *a.m = val; SAME("assignment", *a.p, *a.m); } break;
				case 3: if(calm(type, "emplace of an rvalue", [&] { a.p->emplace(std::move(*x.p)); })) { *a.m = val; SAME("emplace", *a.p, *a.m); } break; case 4: if(calm(type, "construction from an rvalue", [&] { O o{std::move(*x.p)}; O q{std::in_place, std::move(*o)}; a.p->swap(q); })) { *a.m = val; SAME("construction", *a.p, *a.m); } break;
				case 5: { ptl::string got; if(calm(type, "value_or of rvalues", [&] { got = std::move(*a.p).value_or(std::move(*x.p)); })) { const auto want{a.m->value_or(val)}; same<S>(type, "value_or", got, want); } break; }
				default: { ptl::string got; if(a.m->has_value() && calm(type, "value of an rvalue", [&] { got = std::move(*a.p).value(); })) same<S>(type, "value", got, **a.m); bool thrown{false}; if(!a.m->has_value()) { may(type, "value of nothing", [&] { try { (void)a.p->value(); } catch(const std::bad_optional_access &) { thrown = true; } }); CHECK("C25", "result", thrown, "value() of an empty optional without memory does not throw std::bad_optional_access"); } } } }
		if(poisoned) return;
		{ using D = Var<I, S, Vec<I>>; const char * type{"variant"}; using V = Type<WP, D>; Twin<D> a{r}; Twin<S> x{r}; const auto val{*x.m};
			switch(r.below(6)) { case 0: if(calm(type, "assignment of an rvalue", [&] { *a.p = std::move(*x.p); })) { *a.m = val; SAME("assignment", *a.p, *a.m); } break; case 1: if(calm(type, "emplace of an rvalue", [&] { a.p->emplace<ptl::string>(std::move(*x.p)); })) { *a.m = val; SAME("emplace", *a.p, *a.m); } break; case 2: if(calm(type, "assignment of an int", [&] { *a.p = 5; })) { *a.m = 5; SAME("assignment", *a.p, *a.m); } break;
				case 3: if(calm(type, "construction from an rvalue", [&] { V o{std::move(*x.p)}; V q{std::move(o)}; a.p->swap(q); })) { *a.m = val; SAME("construction", *a.p, *a.m); } break;
				case 4: { std::size_t h{9}; const auto want{a.m->index()}; if(calm(type, "visitation", [&] { h = a.p->visit([](int &) { return std::size_t{0}; }, [](ptl::string &) { return std::size_t{1}; }, [](ptl::vector<int> &) { return std::size_t{2}; }); h += 10 * static_cast<std::size_t>(a.p->holds<int>()); h += 100 * static_cast<std::size_t>(a.p->get_if<ptl::string>() != nullptr); })) CHECK("C25", "result", h == want + (want == 0 ? 10 : 0) + (want == 1 ? 100 : 0), "visitation without memory has another result"); break; }
				default: if(a.m->index() == 1) { ptl::string got; if(calm(type, "get of an rvalue", [&] { got = std::move(a.p->get<ptl::string>()); })) same<S>(type, "get", got, std::get<1>(*a.m)); } else { bool thrown{false}; may(type, "get of another alternative", [&] { try { (void)a.p->get<ptl::string>(); } catch(const std::bad_variant_access &) { thrown = true; } }); CHECK("C25", "result", thrown, "get() of another alternative without memory does not throw std::bad_variant_access"); } } }
		HIT("optional and variant operations");
	}
	template<typename D> void no_memory_type(mon::Rng & r, const char * type) { // every operation of these types does without
		const auto p{ops<WP, D>(type)}; const auto m{ops<WM, D>(type)}; alignas(64) unsigned char a[2][512], b[2][512]; auto seed{r.next()};
		const auto both{[&](const char * what, auto && f) { const auto s{r.next()}; bool ok{calm(type, what, [&] { WRng q{s}; depth = 0; f(p, a, q); })}; WRng q{s}; depth = 0; f(m, b, q); return ok; }}; (void)seed;
		const auto look{[&](const char * what) { for(int i{0}; i < 2 && !poisoned; ++i) { world::Out x{buf[0], sizeof buf[0]}, y{buf[1], sizeof buf[1]}; if(!calm(type, "access", [&] { p.dump(a[i], &x); })) return; m.dump(b[i], &y); CHECK("C25", "result", x.n == y.n && std::memcmp(x.buf, y.buf, x.n) == 0, "%s: %s completes without memory with another result: %.*s instead of %.*s", type, what, static_cast<int>(x.n), x.buf, static_cast<int>(y.n), y.buf); } int g{0}; if(!poisoned && calm(type, "comparison", [&] { g = p.cmp(a[0], a[1]); })) CHECK("C25", "result", g == m.cmp(b[0], b[1]), "%s: comparison without memory has another result", type); }};
		if(!both("construction", [](auto & o, auto & t, WRng & q) { o.gen(t[0], &q); o.gen(t[1], &q); })) return; look("construction");
		for(int i{0}; i < 12 && !poisoned; ++i) { if(r.chance(1, 4)) both("copy and move", [](auto & o, auto & t, WRng &) { o.destroy(t[1]); o.copy(t[1], t[0]); o.destroy(t[0]); o.move(t[0], t[1]); o.destroy(t[1]); o.copy(t[1], t[0]); }); else both("an operation", [](auto & o, auto & t, WRng & q) { o.mutate(t[0], t[1], &q); }); look("an operation"); }
		for(int i{0}; i < 2; ++i) { p.destroy(a[i]); m.destroy(b[i]); } HIT("types that never need memory");
	}
	void types(mon::Rng & r) {
		#define TYPES(X) X(S) X(Vec<S>) X(Vec<I>) X(Vec<Vec<S>>) X(Opt<S>) X(Opt<Vec<S>>) X(Vec<Opt<S>>) X(Var<I Y S Y Vec<I>>) X(Vec<Var<S Y I>>) X(Arr<S Y 3>) X(Arr<Vec<I> Y 2>) X(Tup<C Y S Y I>) X(Bit<37>)
		#define Y ,
		constexpr std::size_t n{13}; const auto which{r.below(n)}; const bool mut{r.chance(1, 3)}; std::size_t i{0};
		#define X(...) if(which == i++) { if(mut) mutations<__VA_ARGS__>(r, #__VA_ARGS__); else any<__VA_ARGS__>(r, #__VA_ARGS__); }
		TYPES(X)
		#undef X
	}
	void particular(mon::Rng & r) { switch(r.below(7)) { case 0: case 1: case 2: string_ops(r); break; case 3: vector_ops<S>(r, "vector<string>"); break; case 4: vector_ops<I>(r, "vector<int>"); break; case 5: vector_ops<Opt<S>>(r, "vector<optional<string>>"); break; default: optional_variant_ops(r); } }
	void memoryless(mon::Rng & r) { switch(r.below(8)) { case 0: no_memory_type<SRef>(r, "string_ref"); break; case 1: no_memory_type<ARef>(r, "array_ref"); break; case 2: no_memory_type<ORef>(r, "optional_ref"); break; case 3: no_memory_type<VRef>(r, "variant_ref"); break; case 4: no_memory_type<FRef>(r, "function_ref"); break; case 5: no_memory_type<Bit<37>>(r, "bitset<37>"); break; case 6: no_memory_type<Opt<I>>(r, "optional<int>"); break; default: no_memory_type<Bit<200>>(r, "bitset<200>"); } }
	// the whole program of a memoryless template
	void look_at_shared(mon::Rng & r) {
		WRng q{r.next()}; alignas(programs::Shared) static unsigned char mem[sizeof(programs::Shared)]; const auto s{SUT(::new(mem) programs::Shared{q})};
		for(std::size_t w : {std::size_t{3}, std::size_t{13}, std::size_t{15}}) { programs::See a, b; programs::look(*s, w, a); calm("const operations", w == 3 ? "vector" : w == 13 ? "array_ref" : "function_ref", [&] { if(w == 3) { bool t{false}; (void)t; b << s->v << s->w << s->v.front() << s->v.back() << s->v.at(1) << s->v[0] << s->v.capacity() << s->v.empty(); b.six(s->v, s->v2); } else programs::look(*s, w, b); }); if(w != 3) CHECK("C25", "result", a.h == b.h, "const operations without memory have other results"); if(poisoned) break; }
		SUT((s->~Shared(), 0)); HIT("const operations");
	}
	SCENARIO("types", "C25", types, 5); SCENARIO("particular operations", "C25", particular, 6); SCENARIO("long ones", "C25", long_ones, 1); REQUIRE("C25", "removals from long contents"); SCENARIO("types that never need memory", "C25", memoryless, 3); SCENARIO("const operations", "C25", look_at_shared, 1);
	REQUIRE("C25", "types exercised"); REQUIRE("C25", "string operations"); REQUIRE("C25", "vector operations"); REQUIRE("C25", "optional and variant operations"); REQUIRE("C25", "types that never need memory"); REQUIRE("C25", "failures reported by an exception"); REQUIRE("C25", "of these, refused an allocation on the way");
}
