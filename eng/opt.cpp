// optional against an abstract maybe-value: histories, aliasing, lifetimes, copies, faults.
#include <optional>
#include <utility>
#include <vector>
#include <ptl/optional.hpp>
#include "../rt/elems.hpp"

namespace {
	using namespace mon;
	template<typename T>
	struct Run {
		using O = ptl::optional<T>;
		using L = El<T>;
		struct Box { O o; std::optional<int> m; };
		Rng & r; bool faults;
		std::vector<Box> pool;
		int next_id{1};
		const char * last_op{"start"};
		explicit Run(Rng & r, bool faults) : r{r}, faults{faults} { pool.resize(3); }
		int id() { return next_id++; }
		static int norm(int id) { return L::get(L::make(id)); }
		static bool is(const O & o, const std::optional<int> & m) { return o.has_value() == m.has_value() && static_cast<bool>(o) == m.has_value() && (!m || (!L::tracked || Life::alive(std::addressof(*o))) && L::get(*o) == *m); }
		static std::string show(const std::optional<int> & m) { return m ? std::to_string(*m) : "empty"; }
		static std::string show(const O & o) { return o.has_value() ? (L::tracked && !Life::alive(std::addressof(*o))) ? "a dead object" : std::to_string(L::get(*o)) : "empty"; }

		void check_box(Box & b, const char * op) {
			if(poisoned) return;
			O & o{b.o}; const O & c{o};
			CHECK("C09", "engaged", c.has_value() == b.m.has_value() && static_cast<bool>(c) == b.m.has_value(), "after %s: has_value() is %d, bool is %d, expected %s", op, c.has_value(), static_cast<bool>(c), show(b.m).c_str());
			if(c.has_value() != b.m.has_value()) { poisoned = true; return; }
			const auto e{b.m.has_value()};
			CHECK("C09", "nullopt", (c == std::nullopt) == !e && (std::nullopt == c) == !e && (c != std::nullopt) == e && (std::nullopt != c) == e, "after %s: comparison with nullopt disagrees with has_value()", op);
			if(e) {
				if(L::tracked && !Life::alive(std::addressof(*c))) { CHECK("C07", "dead-value", false, "after %s: the value of an engaged optional is not alive", op); return; }
				if(poisoned) return;
				CHECK("C09", "value", L::get(*c) == *b.m, "after %s: value %d, expected %d", op, L::get(*c), *b.m);
				CHECK("C09", "access", std::addressof(*o) == std::addressof(*c) && o.operator->() == std::addressof(*c) && c.operator->() == std::addressof(*c) && std::addressof(o.value()) == std::addressof(*c) && std::addressof(c.value()) == std::addressof(*c) && static_cast<const void *>(std::addressof(*c)) == static_cast<const void *>(&c), "after %s: accessors disagree", op);
				T && rv{std::move(o).value()}; T && rd{*std::move(o)}; const T && cv{std::move(c).value()}; const T && cd{*std::move(c)};
				CHECK("C09", "access-rvalue", std::addressof(rv) == std::addressof(*c) && std::addressof(rd) == std::addressof(*c) && std::addressof(cv) == std::addressof(*c) && std::addressof(cd) == std::addressof(*c), "after %s: rvalue accessors disagree", op);
			} else {
				int thrown{0};
				try { o.value(); } catch(const std::bad_optional_access &) { ++thrown; }
				try { std::move(c).value(); } catch(const std::bad_optional_access &) { ++thrown; }
				CHECK("C09", "value-empty", thrown == 2, "after %s: value() of an empty optional did not throw", op);
			}
		}
		void check_all(const char * op) {
			std::size_t total{0}; Hash h; h.add(op, std::strlen(op)); h.add(L::name(), 3);
			for(auto & b : pool) { check_box(b, op); total += b.m.has_value(); h.add(b.m ? 2 + (*b.m == L::moved(*b.m)) : 1); }
			if(L::tracked) CHECK("C07", "live-count", Life::live == total, "after %s: %zu objects are alive, the optionals hold %zu", op, Life::live, total);
			h.add(r.s % 64); state(h.h);
		}
		// ids: values the operation may copy (each at most once unless `many`)
		template<typename F>
		void go(Box & b, const char * op, const std::optional<int> & want, int copies, F && f) {
			if(poisoned) return;
			last_op = op;
			OP("%s on %s -> %s (%s)", op, show(b.m).c_str(), show(want).c_str(), L::name());
			const auto live{Life::live}; const auto blocks{heap::live_blocks};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(L::tracked) Life::throw_in = k; else heap::fail_in = k; }
				Life::n_copied = 0;
				try { f(); }
				catch(const Injected &) { threw = true; CHECK("C11", "exception", Life::fired, "%s: wrong exception", op); }
				catch(const std::bad_alloc &) { threw = true; CHECK("C11", "exception", heap::fired, "%s: bad_alloc without a refused allocation", op); }
				const auto fired{Life::fired || heap::fired};
				Life::throw_in = heap::fail_in = -1;
				if(!faults) {
					CHECK("C09", "exception", !threw, "%s: unexpected exception", op);
					if(L::tracked) CHECK("C08", "hidden-copy", Life::n_copied <= copies, "%s made %d copies, at most %d are needed", op, Life::n_copied, copies);
					break;
				}
				if(!threw) { CHECK("C11", "swallowed", !fired, "%s: the failure at point %ld was swallowed", op, k); break; }
				HIT("optional faults judged"); if(b.m) HIT("optional faults judged while engaged"); else HIT("optional faults judged while empty");
				if(L::tracked) CHECK("C07", "live-after-fault", Life::live == live, "%s failed at point %ld: %zu objects alive before, %zu after", op, k, live, Life::live);
				CHECK("C11", "changed", is(b.o, b.m), "%s failed at point %ld: %s, expected %s", op, k, show(b.o).c_str(), show(b.m).c_str());
				CHECK("C11", "leak", heap::live_blocks == blocks, "%s failed at point %ld: %zu blocks before, %zu after", op, k, blocks, heap::live_blocks);
				if(mon::stop()) return;
				Hash h; h.add(op, std::strlen(op)); h.add(k); h.add(b.m.has_value()); h.add(L::name(), 3); state(h.h);
				if(k > 100) harness_error("%s never completes", op);
			}
			if(poisoned) return;
			b.m = want;
		}
		template<typename F>
		void nofault(Box & b, const char * op, const std::optional<int> & want, F && f) {
			const auto old{faults}; faults = false;
			heap::fail_all = old;
			go(b, op, want, 0, f);
			heap::fail_all = false; faults = old;
		}
		template<typename F>
		void build(const char * op, const std::optional<int> & want, int copies, F && f) {
			if(poisoned) return;
			auto & b{pool[r.below(pool.size())]};
			last_op = op;
			OP("construct %s -> %s (%s)", op, show(want).c_str(), L::name());
			const auto live{Life::live}; const auto blocks{heap::live_blocks};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(L::tracked) Life::throw_in = k; else heap::fail_in = k; }
				Life::n_copied = 0;
				try { f([&](O && o) {
					Life::throw_in = heap::fail_in = -1;
					if(!faults && L::tracked) CHECK("C08", "hidden-copy", Life::n_copied <= copies, "%s made %d copies, at most %d are needed", op, Life::n_copied, copies);
					CHECK("C09", "construct", is(o, want), "%s: %s, expected %s", op, show(o).c_str(), show(want).c_str());
					if(r.chance(1, 2) && !poisoned) { SUT(b.o = std::move(o)); b.m = want; }
				}); }
				catch(const Injected &) { threw = true; } catch(const std::bad_alloc &) { threw = true; }
				Life::throw_in = heap::fail_in = -1;
				if(!faults) { CHECK("C09", "exception", !threw, "%s: unexpected exception", op); break; }
				if(!threw) { CHECK("C11", "swallowed", !(Life::fired || heap::fired), "%s swallowed a failure", op); break; }
				HIT("optional constructor faults judged");
				CHECK("C11", "ctor-leak", heap::live_blocks == blocks && (!L::tracked || Life::live == live), "%s failed at point %ld and left something behind", op, k);
				if(mon::stop()) return;
			}
		}
		void step() {
			auto & b{pool[r.below(pool.size())]}; auto & o{pool[r.below(pool.size())]};
			O & x{b.o}; const auto m{b.m};
			const auto k{id()};
			const std::optional<int> want{norm(k)};
			const auto self{[&](const O & y) { CHECK("C09", "returned", &y == &x, "a wrong reference was returned"); }};
			int left{0};
			const auto moved_out{[&](const char * op) { if(L::tracked && !poisoned) CHECK("C08", "rvalue-kept", left == moved_from, "%s did not move its argument", op); }};
			switch(r.below(34)) {
				case 0: { T t(L::make(k)); go(b, "= const &", want, 1, [&] { self(SUT(x = std::as_const(t))); }); CHECK("C08", "lvalue-changed", poisoned || L::get(t) == *want, "= const & changed its argument"); if(m) HIT("assign value engaged"); else HIT("assign value empty"); break; }
				case 1: go(b, "= &&", want, 0, [&] { T t(L::make(k)); self(SUT(x = std::move(t))); left = L::get(t); }); moved_out("= &&"); break;
				case 2: go(b, "emplace(rvalue)", want, 0, [&] { T t(L::make(k)); auto & y{SUT(x.emplace(std::move(t)))}; CHECK("C09", "returned", std::addressof(y) == std::addressof(*x), "emplace returned a wrong reference"); }); if(m) HIT("emplace engaged"); else HIT("emplace empty"); break;
				case 3: if constexpr(L::tracked) { go(b, "emplace(args)", want, 0, [&] { auto & y{SUT(x.emplace(k))}; CHECK("C09", "returned", std::addressof(y) == std::addressof(*x), "emplace returned a wrong reference"); }); } break;
				case 4: { T t(L::make(k)); go(b, "emplace(lvalue)", want, 1, [&] { SUT(x.emplace(std::as_const(t))); }); break; }
				case 5: { const auto w{norm(L::dflt)}; go(b, "emplace()", L::tracked ? L::dflt : L::get(T{}), 0, [&] { SUT(x.emplace()); }); (void)w; HIT("emplace default"); break; }
				case 6: if(m) { go(b, "= own value", m, 1, [&] { self(SUT(x = std::as_const(*x))); }); HIT("assign own value"); } break;
				case 7: if(m) { go(b, "emplace(own value)", m, 1, [&] { SUT(x.emplace(std::as_const(*x))); }); HIT("emplace own value"); } break;
				case 8: if(m) { go(b, "emplace(own value &&)", m, 0, [&] { SUT(x.emplace(std::move(*x))); }); HIT("emplace own rvalue"); } break;
				case 9: case 10: { const auto w{o.m}; const O * src{&o.o}; go(b, &o == &b ? "= self" : "= copy", w, w && &o != &b ? 1 : 0, [&] { self(SUT(x = *src)); }); if(&o == &b) HIT("self copy-assign"); else if(m && w) HIT("copy assign engaged to engaged"); else if(m) HIT("copy assign empty to engaged"); else if(w) HIT("copy assign engaged to empty"); else HIT("copy assign empty to empty"); break; }
				case 11: case 12: { O * src{&o.o}; if(&o == &b) { nofault(b, "= self &&", m, [&] { self(SUT(x = std::move(*src))); }); HIT("self move-assign"); break; }
					const auto w{o.m}; nofault(b, "= move", w, [&] { self(SUT(x = std::move(*src))); }); if(w && !poisoned) { CHECK("C09", "moved-from-engaged", o.o.has_value(), "moving from an engaged optional emptied it"); o.m = L::moved(*w); } HIT("move assign"); break; }
				case 13: nofault(b, "reset", std::nullopt, [&] { SUT(x.reset()); }); if(m) HIT("reset engaged"); else HIT("reset empty"); break;
				case 14: nofault(b, "= nullopt", std::nullopt, [&] { self(SUT(x = std::nullopt)); }); break;
				case 15: case 16: case 17: { O * src{&o.o}; const auto w{o.m}; const auto how{r.below(2)};
					nofault(b, &o == &b ? "swap self" : "swap", w, [&] { if(how) SUT(x.swap(*src)); else { using std::swap; SUT(swap(x, *src)); } });
					if(&o != &b) o.m = m; if(&o == &b) HIT("self swap"); else if(m && w) HIT("swap both"); else if(m) HIT("swap left only"); else if(w) HIT("swap right only"); else HIT("swap none"); break; }
				case 18: { O * src{&o.o}; if(&o != &b) { const auto w{o.m}; nofault(b, "std::swap", w, [&] { SUT(std::swap(x, *src)); }); o.m = m; } break; }
				case 19: { T t(L::make(k)); build("optional(const &)", want, 1, [&](auto use) { use(SUT(O(std::as_const(t)))); }); break; }
				case 20: build("optional(&&)", want, 0, [&](auto use) { T t(L::make(k)); O y{SUT(O(std::move(t)))}; left = L::get(t); use(std::move(y)); }); moved_out("optional(&&)"); break;
				case 21: build("optional(in_place)", want, 0, [&](auto use) { T t(L::make(k)); use(SUT(O(std::in_place, std::move(t)))); }); break;
				case 22: if(r.chance(1, 2)) build("optional(nullopt)", {}, 0, [&](auto use) { use(SUT(O(std::nullopt))); }); else build("optional()", {}, 0, [&](auto use) { use(SUT(O())); }); HIT("construct empty"); break;
				case 23: build("optional(copy)", m, 1, [&](auto use) { use(SUT(O(std::as_const(x)))); }); CHECK("C09", "copy-source", poisoned || is(pool[0].o, pool[0].m), "copy construction changed an optional"); HIT("construct copy"); break;
				case 24: if(!poisoned) { last_op = "move construction"; OP("move construct from %s", show(m).c_str()); Life::n_copied = 0; { O y{SUT(O(std::move(x)))}; CHECK("C09", "construct", is(y, m), "move construction: %s, expected %s", show(y).c_str(), show(m).c_str()); CHECK("C09", "moved-from-engaged", x.has_value() == m.has_value(), "move construction changed the engagement of its source"); CHECK("C08", "hidden-copy", Life::n_copied == 0, "move construction copied"); if(m) b.m = L::moved(*m); } HIT("construct move"); } break;
				case 25: if(!poisoned) { last_op = "value_or"; OP("value_or on %s", show(m).c_str()); T d(L::make(k)); Life::n_copied = 0; T y(SUT(std::as_const(x).value_or(std::as_const(d)))); CHECK("C09", "value_or", L::get(y) == (m ? *m : *want), "value_or returned %d, expected %d", L::get(y), m ? *m : *want); CHECK("C08", "hidden-copy", Life::n_copied <= 1, "value_or made %d copies", Life::n_copied); HIT("value_or"); } break;
				case 26: if(!poisoned) { last_op = "value_or"; OP("rvalue value_or on %s", show(m).c_str()); T d(L::make(k)); Life::n_copied = 0; { T y(SUT(std::move(x).value_or(std::move(d)))); CHECK("C09", "value_or", L::get(y) == (m ? *m : *want), "value_or returned %d, expected %d", L::get(y), m ? *m : *want); } CHECK("C08", "hidden-copy", Life::n_copied == 0, "value_or of an rvalue made %d copies", Life::n_copied); if(m) b.m = L::moved(*m); HIT("value_or rvalue"); } break;
				case 27: if(m && !poisoned) { last_op = "take value"; OP("take the value %s", show(m).c_str()); Life::n_copied = 0; { T y(r.chance(1, 2) ? SUT(std::move(x).value()) : SUT(*std::move(x))); CHECK("C09", "take", L::get(y) == *m, "taking the value yields %d, expected %d", L::get(y), *m); } CHECK("C08", "hidden-copy", Life::n_copied == 0, "taking the value copied"); b.m = L::moved(*m); CHECK("C08", "source-not-moved", poisoned || L::get(*x) == *b.m, "taking the value left the source unmoved"); HIT("take value"); } break;
				case 28: if(m && !poisoned) { last_op = "write"; OP("write through an accessor"); T t(L::make(k)); switch(r.below(3)) { case 0: *x = t; break; case 1: x.value() = t; break; default: *x.operator->() = t; } b.m = want; HIT("write through"); } break;
				case 30: { T t(L::make(k)); go(b, "= optional(value)", want, 1, [&] { self(SUT(x = O(std::as_const(t)))); }); break; }
				case 31: go(b, "= {}", std::nullopt, 0, [&] { self(SUT(x = O{})); }); break;
				default: { const auto w{o.m}; if(&o != &b) { OP("compare %s with %s", show(m).c_str(), show(w).c_str()); const O & y{o.o}; const bool eq{m == w}, lt{m < w}; CHECK("C09", "compare", (x == y) == eq && (x != y) == !eq && (std::is_same_v<T, std::string> || (x < y) == lt && (x >= y) == !lt && (x > y) == (w < m) && (x <= y) == !(w < m)), "comparison of %s and %s is wrong", show(m).c_str(), show(w).c_str()); } }
			}
		}
		void history() {
			const auto steps{r.range(10, 60)};
			for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); if(!poisoned) check_all(last_op); }
			if(!mon::stop()) { { heap::Sut g; pool.clear(); } CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their optionals", Life::live); }
			else new std::vector<Box>(std::move(pool));
		}
	};
	template<typename T> void plain(Rng & r) { Run<T> run{r, false}; run.history(); }
	template<typename T> void faulty(Rng & r) { Run<T> run{r, true}; run.history(); }
	SCENARIO("optional<tracked> history", "C09,C07,C08", plain<Tr<0>>, 3);
	SCENARIO("optional<big> history", "C09,C07", (plain<Tr<1, 4, 200>>), 1);
	SCENARIO("optional<int> history", "C09", plain<int>, 1);
	SCENARIO("optional<std::string> history", "C09", plain<std::string>, 1);
	SCENARIO("optional<unsigned char> history", "C09", plain<unsigned char>, 1); SCENARIO("optional<char> history", "C09", plain<char>, 1); SCENARIO("optional<float> history", "C09", plain<float>, 1);
	SCENARIO("optional<double> history", "C09", plain<double>, 1); SCENARIO("optional<bool> history", "C09", plain<bool>, 1); SCENARIO("optional<enum> history", "C09", plain<Color>, 1); SCENARIO("optional<pointer> history", "C09", plain<const int *>, 1); SCENARIO("optional<3 bytes> history", "C09", plain<Odd3>, 1); SCENARIO("optional<padded> history", "C09", plain<Padded>, 1);
	SCENARIO("optional<default 77> history", "C09", plain<Starts>, 1); SCENARIO("optional<self pointer> history", "C09", plain<Self>, 2); SCENARIO("optional<overloaded &> history", "C09", plain<Amp>, 1); SCENARIO("optional<list of itself> history", "C09", plain<List>, 2);
	SCENARIO("optional<tracked> faults", "C11,C07", faulty<Tr<0>>, 2);
	SCENARIO("optional<big> faults", "C11,C07", (faulty<Tr<1, 4, 200>>), 1);
	SCENARIO("optional<std::string> faults", "C11", faulty<std::string>, 1);
	REQUIRE("C09", "assign own value"); REQUIRE("C09", "emplace own value"); REQUIRE("C09", "emplace own rvalue"); REQUIRE("C09", "self copy-assign"); REQUIRE("C09", "self move-assign"); REQUIRE("C09", "self swap"); REQUIRE("C09", "swap left only"); REQUIRE("C09", "swap right only"); REQUIRE("C09", "swap both"); REQUIRE("C09", "swap none");
	REQUIRE("C09", "copy assign engaged to engaged"); REQUIRE("C09", "copy assign empty to engaged"); REQUIRE("C09", "copy assign engaged to empty"); REQUIRE("C09", "value_or rvalue"); REQUIRE("C09", "construct move");
	REQUIRE("C11", "optional faults judged while engaged"); REQUIRE("C11", "optional faults judged while empty"); REQUIRE("C11", "optional constructor faults judged"); REQUIRE("C08", "take value"); REQUIRE("C08", "value_or rvalue");
}
