// Threads with objects of their own, and threads reading shared const objects: no data race (ThreadSanitizer), and exactly the results of a single thread.
#include <sched.h>
#include <thread>
#include <unistd.h>
#include "../rt/mon.hpp"
#include "../rt/programs.hpp"

namespace {
	using namespace mon;
	using world::depth;
	char text[64]; int ints[16];
	struct Setup { Setup() { for(std::size_t i{0}; i < sizeof text; ++i) text[i] = static_cast<char>('A' + i % 26); for(int i{0}; i < 16; ++i) ints[i] = i * 7; world::ctx = {text, sizeof text, ints, 16}; } } setup;

	constexpr unsigned most{6}; constexpr std::size_t steps_max{24};
	struct Job { std::uint64_t seed; std::size_t n; std::uint64_t out[steps_max]; unsigned ticket[steps_max]; };
	std::atomic<unsigned> gate{0}, ticket{0};
	void pause_somehow(world::Rng & r) { switch(r.below(8)) { case 0: sched_yield(); break; case 1: usleep(static_cast<useconds_t>(r.below(60))); break; case 2: case 3: for(volatile unsigned i{0}; i < r.below(900); i = i + 1) {} break; default: break; } }

	// Runs step(thread, i, rng) -> hash on `k` threads that start together, then judges every hash against serial(thread, i, rng).
	template<typename Step, typename Serial> void run(Rng & r, unsigned k, const char * what, Step && step, Serial && serial) {
		static Job jobs[most]; // filled before the threads start
		ticket.store(0, std::memory_order_relaxed); gate.store(0, std::memory_order_relaxed);
		for(unsigned t{0}; t < k; ++t) { jobs[t].seed = r.next(); jobs[t].n = 2 + r.below(steps_max - 2); }
		const bool main_too{r.chance(1, 2)};
		const auto body{[&](unsigned t) {
			auto & j{jobs[t]}; world::Rng pauses{j.seed ^ 0x55}; 
			gate.fetch_add(1, std::memory_order_relaxed); while(gate.load(std::memory_order_relaxed) < k) sched_yield();
			for(std::size_t i{0}; i < j.n; ++i) { pause_somehow(pauses); j.ticket[i] = ticket.fetch_add(1, std::memory_order_relaxed); world::Rng q{world::Rng::mix(j.seed + i)}; j.out[i] = step(t, i, q); }
		}};
		std::thread ts[most];
		for(unsigned t{main_too ? 1u : 0u}; t < k; ++t) ts[t] = std::thread{body, t};
		if(main_too) body(0);
		for(auto & t : ts) if(t.joinable()) t.join();
		for(unsigned t{0}; t < k && !poisoned; ++t) for(std::size_t i{0}; i < jobs[t].n && !poisoned; ++i) {
			world::Rng q{world::Rng::mix(jobs[t].seed + i)}; const auto h{serial(t, i, q)};
			CHECK("C24", "result", h == jobs[t].out[i], "%s: step %zu of thread %u of %u observed other results than a single thread does", what, i, t, k);
		}
		unsigned char order[most * steps_max]; const auto n{ticket.load()}; for(unsigned t{0}; t < k; ++t) for(std::size_t i{0}; i < jobs[t].n; ++i) order[jobs[t].ticket[i]] = static_cast<unsigned char>(t);
		unsigned switches{0}; Hash h; for(unsigned i{0}; i < n; ++i) { h.add(order[i]); if(i && order[i] != order[i - 1]) ++switches; }
		state(h.h); HITN("steps executed by threads", n); HITN("switches between threads observed", switches);
		if(switches >= k) HIT("schedules with interleaved threads");
	}
	unsigned threads(Rng & r) { return 2 + static_cast<unsigned>(r.below(most - 1)); }

	void own(Rng & r) {
		const auto k{threads(r)}; const auto focus{r.below(programs::count)}; const bool focused{r.chance(1, 2)};
		OP("%u threads with their own objects%s%s", k, focused ? " of " : "", focused ? programs::all[focus].name : "");
		const auto f{[&](unsigned, std::size_t, world::Rng & q) { programs::See o; depth = 0; programs::all[focused ? (q.next(), focus) : q.below(programs::count)].run(q, o); return o.h; }};
		run(r, k, "own objects", f, f); HIT("own objects");
	}
	void shared(Rng & r) {
		const auto k{threads(r)}; const auto seed{r.next()}; const auto focus{r.below(programs::n_looks)}; const bool focused{r.chance(1, 3)};
		OP("%u threads reading the same objects (%s)", k, focused ? "one operation group" : "all operations"); if(focused) OP("operation group %zu", focus);
		world::Rng a{seed}, b{seed}; const programs::Shared q{a}; 
		const auto f{[focus, focused](const programs::Shared & s) { return [&s, focus, focused](unsigned, std::size_t, world::Rng & x) { programs::See o; const auto w{x.below(programs::n_looks)}; programs::look(s, focused ? focus : w, o); return o.h; }; }};
		const programs::Shared fresh{b}; // nobody has read it
		run(r, k, "shared const objects", f(q), f(fresh));
		for(std::size_t i{0}; i < programs::n_looks && !poisoned; ++i) { programs::See x, y; programs::look(q, i, x); programs::look(fresh, i, y); CHECK("C24", "changed", x.h == y.h, "reading shared const objects from several threads changed them (operation group %zu)", i); }
		HIT("shared const objects"); HITN("operation groups on shared objects", focused ? 1 : programs::n_looks);
	}
	// copies (and moved-from shells) of one object, each used by another thread
	template<typename D> void copies_of(Rng & r, const char * name) {
		const auto p{world::ops<world::P, D>(name)}; const auto k{threads(r)}; const auto seed{r.next()};
		OP("%u threads with copies of the same %s", k, name);
		alignas(64) static unsigned char mem[2][most][2][1024]; static char buf[most + 1][1 << 16];
		for(int side{0}; side < 2; ++side) { world::Rng q{seed}; alignas(64) unsigned char base[1024]; depth = 0; p.gen(base, &q); 
			for(unsigned t{0}; t < k; ++t) for(int i{0}; i < 2; ++i) { if(q.chance(1, 4)) { p.copy(mem[side][t][i], base); alignas(64) unsigned char other[1024]; p.move(other, mem[side][t][i]); p.destroy(mem[side][t][i]); p.copy(mem[side][t][i], other); p.destroy(other); } else if(t + 1 == k && i) p.move(mem[side][t][i], base); else p.copy(mem[side][t][i], base); }
			p.destroy(base); }
		const auto f{[&](int side) { return [&, side](unsigned t, std::size_t, world::Rng & q) { depth = 0; p.mutate(mem[side][t][0], mem[side][t][1], &q); programs::See o; for(auto & m : mem[side][t]) { world::Out w{buf[side ? most : t], sizeof buf[0]}; p.dump(m, &w); o.text(w.buf, w.n); } o << p.cmp(mem[side][t][0], mem[side][t][1]); return o.h; }; }};
		run(r, k, name, f(0), f(1));
		for(auto & s : mem) for(unsigned t{0}; t < k; ++t) for(auto & m : s[t]) p.destroy(m);
		HIT("copies of one object");
	}
	void copies(Rng & r) {
		using namespace world;
		switch(r.below(9)) { case 0: copies_of<S>(r, "string"); break; case 1: copies_of<Vec<S>>(r, "vector<string>"); break; case 2: copies_of<Vec<I>>(r, "vector<int>"); break; case 3: copies_of<Opt<S>>(r, "optional<string>"); break; case 4: copies_of<Var<I, S, Vec<I>>>(r, "variant<int, string, vector<int>>"); break; case 5: copies_of<Arr<S, 3>>(r, "array<string, 3>"); break; case 6: copies_of<Tup<C, S, I>>(r, "tuple<char, string, int>"); break; case 7: copies_of<Vec<Vec<S>>>(r, "vector<vector<string>>"); break; default: copies_of<Bit<200>>(r, "bitset<200>"); }
	}
	// distinct elements of one container
	void elements(Rng & r) {
		using programs::str; const auto k{threads(r)}; OP("%u threads with distinct elements of the same containers", k);
		struct All { ptl::vector<str> v{}; ptl::array<str, most> a{}; ptl::vector<ptl::optional<str>> o{}; ptl::vector<ptl::variant<int, str>> x{}; str s{}; ptl::vector<char> c{}; All() : v(most), o(most), x(most), c(most) { s.resize(most, '0'); } };
		All all[2]; struct Ptr { str * v, * a; ptl::optional<str> * o; ptl::variant<int, str> * x; char * s, * c; } at[2][most];
		for(int i{0}; i < 2; ++i) for(std::size_t t{0}; t < most; ++t) at[i][t] = {&all[i].v[t], &all[i].a[t], &all[i].o[t], &all[i].x[t], &all[i].s[t], &all[i].c[t]};
		const auto f{[&](int side) { return [&, side](unsigned t, std::size_t, world::Rng & q) { depth = 0; auto & e{at[side][t]}; programs::See o; auto s{programs::some(q)}; switch(q.below(9)) { case 0: *e.v += s; break; case 1: e.v->clear(); break; case 2: *e.a = s; break; case 3: *e.o = s; break; case 4: e.o->reset(); break; case 5: *e.x = s; break; case 6: *e.x = static_cast<int>(s.size()); break; case 7: *e.s = static_cast<char>(s.size()); break; default: *e.c = static_cast<char>(s.size() + 1); } if(e.v->size() > 300) *e.v = s; o << *e.v << *e.a << *e.o << *e.x << *e.s << *e.c; return o.h; }; }};
		run(r, k, "elements of one container", f(0), f(1)); HIT("distinct elements of one container");
	}
	SCENARIO("own objects", "C24", own, 3);
	SCENARIO("shared const objects", "C24", shared, 4);
	SCENARIO("copies of one object", "C24", copies, 3);
	SCENARIO("elements of one container", "C24", elements, 1);
	REQUIRE("C24", "own objects"); REQUIRE("C24", "shared const objects"); REQUIRE("C24", "copies of one object"); REQUIRE("C24", "distinct elements of one container"); REQUIRE("C24", "schedules with interleaved threads");
}
