// vector against a sequence model: histories, aliasing, faults, capacity, lifetimes, copies, alignment.
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <new>
#include <ptl/vector.hpp>
#include "../rt/elems.hpp"
#include "../rt/iters.hpp"
#ifndef PART
#define PART 0
#endif

namespace {
	using namespace mon;
	template<typename T>
	struct Run {
		using V = ptl::vector<T>;
		using L = El<T>;
		struct Box { V v; std::vector<int> m; };
		Rng & r;
		bool faults;
		std::vector<Box> pool; // harness memory, reserved up front so that boxes never move
		int next_id{1};

		explicit Run(Rng & r, bool faults) : r{r}, faults{faults} { pool.reserve(8); pool.resize(3); }
		int id() { return next_id++; }
		static int norm(int id) { return L::get(L::make(id)); }

		enum class Cap { any, fits, keeps }; // what C06 says about the buffer
		struct Snap { const T * data; std::size_t cap, size; };
		static Snap snap(const V & v) { return {v.data(), v.capacity(), v.size()}; }

		bool same(const V & v, const std::vector<int> & m) {
			if(v.size() != m.size()) return false;
			for(std::size_t i{0}; i < m.size(); ++i) if(L::get(v.data()[i]) != m[i]) return false;
			return true;
		}
		std::string show(const V & v) { std::string s{"["}; const auto n{v.size()}; for(std::size_t i{0}; i < n && i < 40; ++i) s += std::to_string(L::get(v.data()[i])) + " "; return s + "]"; }
		std::string show(const std::vector<int> & m) { std::string s{"["}; for(std::size_t i{0}; i < m.size() && i < 40; ++i) s += std::to_string(m[i]) + " "; return s + "]"; }

		void check_box(Box & b, const char * op) {
			V & v{b.v}; const V & c{v};
			CHECK("C01", "size", c.size() == b.m.size(), "after %s: size %zu, expected %zu", op, c.size(), b.m.size());
			CHECK("C06", "cap-below-size", c.capacity() >= c.size(), "after %s: capacity %zu < size %zu", op, c.capacity(), c.size());
			if(poisoned || c.size() != b.m.size()) { poisoned = true; return; }
			CHECK("C01", "empty", c.empty() == b.m.empty(), "after %s: empty() wrong", op);
			for(std::size_t i{0}; i < b.m.size() && !poisoned; ++i) {
				CHECK("C27", "misaligned", reinterpret_cast<std::uintptr_t>(c.data() + i) % alignof(T) == 0, "after %s: element %zu of %s at %p is not aligned to %zu", op, i, L::name(), (const void *)(c.data() + i), alignof(T));
				if(L::tracked && !Life::alive(c.data() + i)) { CHECK("C07", "dead-element", false, "after %s: element %zu of %zu is not alive", op, i, b.m.size()); return; }
				if(poisoned) return;
				CHECK("C01", "content", L::get(c.data()[i]) == b.m[i], "after %s: element %zu is %d, expected %d: %s expected %s", op, i, L::get(c.data()[i]), b.m[i], show(v).c_str(), show(b.m).c_str());
			}
			if(poisoned) return;
			const auto n{b.m.size()};
			CHECK("C01", "iterators", static_cast<std::size_t>(c.end() - c.begin()) == n && static_cast<std::size_t>(v.end() - v.begin()) == n, "after %s: end() - begin() wrong", op);
			if(n) {
				const auto k{r.below(n)};
				CHECK("C01", "access", std::addressof(c[k]) == c.data() + k && std::addressof(v[k]) == v.data() + k && std::addressof(*(c.begin() + k)) == c.data() + k && std::addressof(*(v.rbegin() + (n - 1 - k))) == c.data() + k, "after %s: accessors of element %zu disagree", op, k);
				CHECK("C01", "front-back", std::addressof(v.front()) == c.data() && std::addressof(c.front()) == c.data() && std::addressof(v.back()) == c.data() + (n - 1) && std::addressof(c.back()) == c.data() + (n - 1) && v.data() == c.data(), "after %s: front/back wrong", op);
			}
		}
		void check_all(const char * op) {
			std::size_t total{0};
			for(auto & b : pool) { check_box(b, op); if(poisoned) return; total += b.m.size(); }
			if(L::tracked) CHECK("C07", "live-count", Life::live == total, "after %s: %zu objects are alive, the containers hold %zu", op, Life::live, total);
			CHECK("C27", "misaligned", !Life::misaligned, "during %s an object was constructed at a misaligned address", op);
			Hash h;
			h.add(op, std::strlen(op)); h.add(L::name(), 3);
			for(auto & b : pool) { h.add(b.m.size()); h.add(b.v.capacity()); h.add(b.m.empty() ? 0 : static_cast<std::uint64_t>(b.m[0] - b.m.back())); }
			state(h.h);
		}
		void copies_begin() { Life::n_copied = 0; }
		void copies_end(const char * op, const std::vector<int> & allowed) {
			if(!L::tracked) return;
			for(int i{0}; i < Life::n_copied && i < Life::copied_cap && !poisoned; ++i) {
				const auto x{Life::copied[i]};
				CHECK("C08", "hidden-copy", std::find(allowed.begin(), allowed.end(), x) != allowed.end(), "%s copied element %d, which it may only move", op, x);
			}
			CHECK("C08", "hidden-copy", !(allowed.empty() && Life::n_copied), "%s made %d copies", op, Life::n_copied);
			if(allowed.size() > 1) CHECK("C08", "copied-twice", static_cast<std::size_t>(Life::n_copied) <= allowed.size(), "%s copied %d elements of a range of %zu", op, Life::n_copied, allowed.size());
		}

		// runs one modifying operation; in fault mode every fault point of it is hit first, and each failure judged
		template<typename F>
		void go(Box & b, const char * op, Cap cap, std::size_t new_size, const std::vector<int> & allowed, F && f) {
			if(poisoned) return;
			OP("%s on [size %zu cap %zu] -> %zu (%s)", op, b.v.size(), b.v.capacity(), new_size, L::name());
			const auto pre{snap(b.v)};
			const auto pre_m{b.m};
			const auto live{Life::live};
			const auto blocks{heap::live_blocks};
			if(faults) {
				const int first{static_cast<int>(r.below(2))};
				for(int pass{0}; pass < 1; ++pass) for(long k{0};; ++k) {
					bool threw{false}, fired{false};
					Life::fired = heap::fired = false;
					Life::misaligned = false;
					if(first == 0) Life::throw_in = k; else heap::fail_in = k;
					try { f(); }
					catch(const Injected &) { threw = true; CHECK("C02", "exception", Life::fired, "%s: an exception of the wrong kind arrived", op); }
					catch(const std::bad_alloc &) { threw = true; CHECK("C02", "exception", heap::fired, "%s: bad_alloc without a refused allocation", op); }
					catch(const std::exception & e) { Life::throw_in = -1; heap::fail_in = -1; CHECK("C02", "exception", false, "%s: unexpected exception %s", op, e.what()); return; }
					fired = Life::fired || heap::fired;
					Life::throw_in = -1; heap::fail_in = -1;
					if(!threw) {
						CHECK("C02", "swallowed", !fired, "%s: the failure at point %ld was swallowed", op, k);
						break;
					}
					if(first == 0) HIT("element/iterator faults judged"); else HIT("allocation faults judged");
					note("  fault %s#%ld", first == 0 ? "element" : "alloc", k);
					const auto now{snap(b.v)};
					CHECK("C02", "changed-size", now.size == pre.size, "%s failed at fault point %ld: size %zu became %zu", op, k, pre.size, now.size);
					CHECK("C02", "changed-buffer", now.data == pre.data && now.cap == pre.cap, "%s failed at fault point %ld: buffer or capacity changed (%zu -> %zu)", op, k, pre.cap, now.cap);
					if(L::tracked) CHECK("C07", "live-after-fault", Life::live == live, "%s failed at fault point %ld: %zu objects alive before, %zu after", op, k, live, Life::live);
					if(!poisoned) CHECK("C07", "blocks-after-fault", heap::live_blocks == blocks, "%s failed at fault point %ld: %zu blocks before, %zu after", op, k, blocks, heap::live_blocks);
					CHECK("C02", "changed-content", same(b.v, pre_m), "%s failed at fault point %ld: %s expected %s", op, k, show(b.v).c_str(), show(pre_m).c_str());
					if(mon::stop()) return;
					Hash h; h.add(op, std::strlen(op)); h.add(k); h.add(pre.size); h.add(pre.cap); h.add(first); state(h.h);
					if(k > 2000) harness_error("%s never completes", op);
				}
				HIT("retried without fault");
			} else {
				copies_begin();
				try { f(); }
				catch(const std::exception & e) { CHECK("C01", "exception", false, "%s: unexpected exception %s", op, e.what()); return; }
				copies_end(op, allowed);
			}
			if(cap == Cap::keeps || (cap == Cap::fits && new_size <= pre.cap)) {
				CHECK("C06", "realloc-within-capacity", b.v.data() == pre.data && b.v.capacity() == pre.cap, "%s (size %zu -> %zu, capacity %zu) changed the buffer or the capacity (now %zu)", op, pre.size, new_size, pre.cap, b.v.capacity());
				HIT("operations within capacity");
			} else HIT("operations beyond capacity");
			if(poisoned) return;
		}
		template<typename F>
		void build(const char * op, const std::vector<int> & want, F && f) { // f() -> V, by value
			if(poisoned) return;
			OP("construct %s -> %zu elements (%s)", op, want.size(), L::name());
			const auto live{Life::live};
			const auto blocks{heap::live_blocks};
			const bool alloc{r.chance(1, 2)};
			for(long k{0};; ++k) {
				if(faults) { Life::fired = heap::fired = false; if(alloc) heap::fail_in = k; else Life::throw_in = k; }
				bool threw{false};
				try {
					f([&](V && v) {
						heap::fail_in = -1; Life::throw_in = -1;
						CHECK("C01", "construct", same(v, want), "%s: %s expected %s", op, show(v).c_str(), show(want).c_str());
						CHECK("C06", "cap-below-size", v.capacity() >= v.size(), "%s: capacity below size", op);
						CHECK("C27", "misaligned", reinterpret_cast<std::uintptr_t>(v.data()) % alignof(T) == 0, "%s: misaligned buffer", op);
						if(!faults && r.chance(1, 2)) { auto & b{pool[r.below(pool.size())]}; SUT(b.v = std::move(v)); b.m = want; }
					});
				} catch(const Injected &) { threw = true; }
				catch(const std::bad_alloc &) { threw = true; }
				heap::fail_in = -1; Life::throw_in = -1;
				if(!faults) { CHECK("C01", "exception", !threw, "%s: unexpected exception", op); break; }
				if(!threw) { CHECK("C02", "swallowed", !(Life::fired || heap::fired), "%s swallowed a failure", op); break; }
				HIT("constructor faults judged");
				CHECK("C02", "ctor-leak", heap::live_blocks == blocks && (!L::tracked || Life::live == live), "%s failed at fault point %ld and leaked (%zu -> %zu blocks, %zu -> %zu objects)", op, k, blocks, heap::live_blocks, live, Life::live);
				if(poisoned) return;
				if(k > 2000) harness_error("%s never completes", op);
			}
		}

		Sources<T> src; std::vector<int> src_ids; // harness source elements
		void make_src(std::size_t n) {
			src.clear(); src_ids.clear(); src.reserve(n);
			for(std::size_t i{0}; i < n; ++i) { const auto k{id()}; src.push_back(L::make(k)); src_ids.push_back(norm(k)); }
		}
		void drop_src() {
			if(L::tracked && !poisoned) for(std::size_t i{0}; i < src.size() && !poisoned; ++i) CHECK("C08", "lvalue-changed", L::get(src[i]) == src_ids[i], "an element of a source range was changed");
			src.clear();
		}

		// calls g with a part of v as iterators of one of four kinds
		template<typename G> void own(V & v, std::size_t f, std::size_t l, G && g) {
			switch(own_kind) { case 0: g(v.cbegin() + f, v.cbegin() + l); break; case 1: g(v.begin() + f, v.begin() + l); break; case 2: g(v.data() + f, v.data() + l); break; default: g(std::as_const(v).data() + f, std::as_const(v).data() + l); }
		}
		std::size_t own_kind{0}, top{60};

		void step() {
			own_kind = r.below(4);
			auto & b{pool[r.below(pool.size())]};
			auto & o{pool[r.below(pool.size())]};
			V & v{b.v}; auto & m{b.m};
			const auto n{m.size()};
			const std::size_t budget{n > top ? 0 : r.chance(1, top > 60 ? 4 : 12) ? r.range(0, top + 10) : r.range(0, 6)};
			const auto at{r.below(n + 1)};
			const std::vector<int> none;
			switch(r.below(46)) {
				case 0: { const auto k{id()}; T t(L::make(k)); go(b, "push_back(const&)", Cap::fits, n + 1, {norm(k)}, [&] { auto & x{SUT(v.push_back(t))}; CHECK("C01", "returned", std::addressof(x) == v.data() + n, "push_back returned a wrong reference"); }); m.push_back(norm(k)); CHECK("C08", "lvalue-changed", L::get(t) == norm(k), "push_back(const&) changed its argument"); HIT("push_back copy"); break; }
				case 1: { const auto k{id()}; int left{0}; go(b, "push_back(&&)", Cap::fits, n + 1, none, [&] { T t(L::make(k)); auto & x{SUT(v.push_back(std::move(t)))}; CHECK("C01", "returned", std::addressof(x) == v.data() + n, "push_back returned a wrong reference"); left = L::get(t); }); m.push_back(norm(k)); if(L::tracked) CHECK("C08", "rvalue-kept", left == moved_from || poisoned, "push_back(&&) did not move its argument"); HIT("push_back move"); break; }
				case 2: { const auto k{id()}; go(b, "emplace_back", Cap::fits, n + 1, none, [&] {
						if constexpr(L::tracked) { auto & x{SUT(v.emplace_back(k))}; CHECK("C01", "returned", std::addressof(x) == v.data() + n, "emplace_back returned a wrong reference"); }
						else { T t(L::make(k)); auto & x{SUT(v.emplace_back(std::move(t)))}; CHECK("C01", "returned", std::addressof(x) == v.data() + n, "emplace_back returned a wrong reference"); }
					}); m.push_back(norm(k)); HIT("emplace_back"); break; }
				case 3: if(n) { const auto j{r.below(n)}; go(b, "push_back(own element)", Cap::fits, n + 1, {m[j]}, [&] { SUT(v.push_back(v[j])); }); m.push_back(m[j]); HIT("push_back own"); } break;
				case 4: if(n) { const auto j{r.below(n)}; go(b, "emplace_back(own element)", Cap::fits, n + 1, {m[j]}, [&] { SUT(v.emplace_back(std::as_const(v)[j])); }); m.push_back(m[j]); HIT("emplace_back own"); } break;
				case 5: { const auto k{id()}; T t(L::make(k)); go(b, "insert(const&)", Cap::fits, n + 1, {norm(k)}, [&] { auto it{SUT(v.insert(v.cbegin() + at, t))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); }); m.insert(m.begin() + at, norm(k)); HIT("insert copy"); break; }
				case 6: { const auto k{id()}; int left{0}; go(b, "insert(&&)", Cap::fits, n + 1, none, [&] { T t(L::make(k)); auto it{SUT(v.insert(v.cbegin() + at, std::move(t)))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); left = L::get(t); }); m.insert(m.begin() + at, norm(k)); if(L::tracked) CHECK("C08", "rvalue-kept", left == moved_from || poisoned, "insert(&&) did not move its argument"); HIT("insert move"); break; }
				case 7: { const auto k{id()}; go(b, "emplace", Cap::fits, n + 1, none, [&] { T t(L::make(k)); auto it{SUT(v.emplace(v.cbegin() + at, std::move(t)))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "emplace returned a wrong iterator"); }); m.insert(m.begin() + at, norm(k)); HIT("emplace"); break; }
				case 8: if(n) { const auto j{r.below(n)}; go(b, "insert(own element)", Cap::fits, n + 1, {m[j]}, [&] { SUT(v.insert(v.cbegin() + at, v[j])); }); const auto x{m[j]}; m.insert(m.begin() + at, x); HIT("insert own"); } break;
				case 9: if(n && !faults && !std::is_same_v<T, ptl::string>) { const auto j{r.below(n)}; go(b, "insert(own element &&)", Cap::fits, n + 1, none, [&] { SUT(v.insert(v.cbegin() + at, std::move(v[j]))); }); const auto x{m[j]}; m[j] = L::moved(x); m.insert(m.begin() + at, x); HIT("insert own rvalue"); } break;
				case 10: { const auto k{id()}; T t(L::make(k)); go(b, "insert(count, value)", Cap::fits, n + budget, {norm(k)}, [&] { auto it{SUT(v.insert(v.cbegin() + at, budget, t))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); }); m.insert(m.begin() + at, budget, norm(k)); HIT("insert fill"); break; }
				case 11: if(n) { const auto j{r.below(n)}; go(b, "insert(count, own element)", Cap::fits, n + budget, {m[j]}, [&] { SUT(v.insert(v.cbegin() + at, budget, v[j])); }); const auto x{m[j]}; m.insert(m.begin() + at, budget, x); HIT("insert fill own"); } break;
				case 12: { make_src(budget); range_insert(b, at, n); break; }
				case 13: if(n) { const auto f{r.below(n + 1)}, l{r.range(f, n)}; const std::vector<int> part(m.begin() + f, m.begin() + l); if(n + part.size() > top + 20) break; go(b, "insert(own range)", Cap::fits, n + part.size(), part, [&] { own(v, f, l, [&](auto a, auto z) { SUT(v.insert(v.cbegin() + at, a, z)); }); }); m.insert(m.begin() + at, part.begin(), part.end()); HIT("insert own range"); } break;
				case 14: { const int a{id()}, c{id()}; const std::initializer_list<T> il{L::make(a), L::make(c)}; go(b, "insert(ilist)", Cap::fits, n + 2, {norm(a), norm(c)}, [&] { auto it{SUT(v.insert(v.cbegin() + at, il))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); }); const int x[]{norm(a), norm(c)}; m.insert(m.begin() + at, x, x + 2); HIT("insert ilist"); break; }
				case 15: if(n) { const auto j{r.below(n)}; nofault(b, "erase(pos)", Cap::keeps, n - 1, [&] { auto it{SUT(v.erase(v.cbegin() + j))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(j), "erase returned a wrong iterator"); }); m.erase(m.begin() + j); HIT("erase one"); } break;
				case 16: { const auto f{r.below(n + 1)}, l{r.chance(1, 4) ? f : r.range(f, n)}; nofault(b, "erase(range)", Cap::keeps, n - (l - f), [&] { auto it{SUT(v.erase(v.cbegin() + f, v.cbegin() + l))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(f), "erase returned a wrong iterator"); }); m.erase(m.begin() + f, m.begin() + l); if(f == l) HIT("erase empty range"); else HIT("erase range"); break; }
				case 17: if(n) { nofault(b, "pop_back", Cap::keeps, n - 1, [&] { SUT(v.pop_back()); }); m.pop_back(); HIT("pop_back"); } break;
				case 18: if(r.chance(1, 3)) { nofault(b, "clear", Cap::keeps, 0, [&] { SUT(v.clear()); }); m.clear(); HIT("clear"); } break;
				case 19: { const auto k{r.chance(1, 3) ? r.below(n + 1) : n + budget}; go(b, "resize(n)", Cap::fits, k, none, [&] { SUT(v.resize(k)); }); m.resize(k, L::dflt); if(k < n) HIT("resize down"); else HIT("resize up"); break; }
				case 20: { const auto k{r.chance(1, 3) ? r.below(n + 1) : n + budget}; const auto x{id()}; T t(L::make(x)); go(b, "resize(n, value)", Cap::fits, k, {norm(x)}, [&] { SUT(v.resize(k, t)); }); m.resize(k, norm(x)); HIT("resize value"); break; }
				case 21: if(n) { const auto k{n + budget}; const auto j{r.below(n)}; const auto x{m[j]}; go(b, "resize(n, own element)", Cap::fits, k, {x}, [&] { SUT(v.resize(k, v[j])); }); m.resize(k, x); HIT("resize own"); } break;
				case 22: { const auto cap{v.capacity()}; const auto k{r.chance(1, 4) ? cap : r.below(n + top * 2 / 3)}; go(b, "reserve", k <= cap ? Cap::fits : Cap::any, n, none, [&] { SUT(v.reserve(k)); });
					CHECK("C06", "reserve", v.capacity() >= k, "reserve(%zu) left the capacity at %zu", k, v.capacity());
					CHECK("C06", "reserve-shrinks", v.capacity() >= cap, "reserve(%zu) shrank the capacity from %zu to %zu", k, cap, v.capacity()); HIT("reserve"); break; }
				case 23: { const auto cap{v.capacity()}; nofault(b, "shrink_to_fit", Cap::any, n, [&] { SUT(v.shrink_to_fit()); }); CHECK("C06", "shrink-grows", v.capacity() <= cap, "shrink_to_fit increased the capacity from %zu to %zu", cap, v.capacity()); if(v.capacity() < cap) HIT("shrink effective"); break; }
				case 24: { make_src(budget); range_assign(b, n); break; }
				case 25: { const auto k{id()}; T t(L::make(k)); go(b, "assign(count, value)", Cap::any, budget, {norm(k)}, [&] { SUT(v.assign(budget, t)); }); m.assign(budget, norm(k)); HIT("assign fill"); break; }
				case 26: if(n) { const auto j{r.below(n)}; const auto x{m[j]}; go(b, "assign(count, own element)", Cap::any, budget, {x}, [&] { SUT(v.assign(budget, v[j])); }); m.assign(budget, x); HIT("assign fill own"); } break;
				case 27: if(n) { const auto f{r.below(n + 1)}, l{r.range(f, n)}; const std::vector<int> part(m.begin() + f, m.begin() + l); go(b, "assign(own range)", Cap::any, part.size(), part, [&] { own(v, f, l, [&](auto a, auto z) { SUT(v.assign(a, z)); }); }); m = part; HIT("assign own range"); } break;
				case 28: { const int a{id()}, c{id()}, d{id()}; const std::initializer_list<T> il{L::make(a), L::make(c), L::make(d)}; if(r.chance(1, 2)) go(b, "assign(ilist)", Cap::any, 3, {norm(a), norm(c), norm(d)}, [&] { SUT(v.assign(il)); }); else go(b, "=ilist", Cap::any, 3, {norm(a), norm(c), norm(d)}, [&] { auto & x{SUT(v = il)}; CHECK("C01", "returned", &x == &v, "operator= returned a wrong reference"); }); m = {norm(a), norm(c), norm(d)}; HIT("assign ilist"); break; }
				case 29: { const auto keep{o.m}; go(b, &o == &b ? "= self" : "= copy", Cap::any, keep.size(), keep, [&] { auto & x{SUT(v = std::as_const(o.v))}; CHECK("C01", "returned", &x == &v, "operator= returned a wrong reference"); }); m = keep; if(&o == &b) HIT("self copy-assign"); else HIT("copy assign"); break; }
				case 30: { // move assignment
					const auto src_data{o.v.data()}; const auto src_cap{o.v.capacity()}; const auto moves{Life::moves};
					V * alias{&o.v};
					nofault(b, &o == &b ? "= self &&" : "= move", Cap::any, o.m.size(), [&] { auto & x{SUT(v = std::move(*alias))}; CHECK("C01", "returned", &x == &v, "operator= returned a wrong reference"); });
					if(&o == &b) { HIT("self move-assign"); break; }
					CHECK("C06", "move-transfers", v.data() == src_data && v.capacity() == src_cap && (!L::tracked || Life::moves == moves), "move assignment did not transfer the buffer");
					m = o.m; o.m.clear(); HIT("move assign"); break; }
				case 31: { // swap
					const auto da{v.data()}, db{o.v.data()}; const auto ca{v.capacity()}, cb{o.v.capacity()}; const auto moves{Life::moves};
					const auto how{r.below(3)};
					nofault(b, "swap", Cap::any, o.m.size(), [&] { if(how == 0) SUT(v.swap(o.v)); else if(how == 1) { using std::swap; SUT(swap(v, o.v)); } else if(&b != &o) SUT(std::swap(v, o.v)); });
					if(&o == &b) { CHECK("C06", "swap-transfers", v.data() == da && v.capacity() == ca, "self-swap changed the buffer"); HIT("self swap"); break; }
					CHECK("C06", "swap-transfers", v.data() == db && o.v.data() == da && v.capacity() == cb && o.v.capacity() == ca && (!L::tracked || Life::moves == moves), "swap did not exchange the buffers");
					std::swap(m, o.m); HIT("swap"); break; }
				case 32: { const auto k{budget}; build("vector(n)", std::vector<int>(k, L::dflt), [&](auto use) { use(SUT(V(k))); }); HIT("construct count"); break; }
				case 33: { const auto k{id()}; T t(L::make(k)); build("vector(n, value)", std::vector<int>(budget, norm(k)), [&](auto use) { use(SUT(V(budget, t))); }); HIT("construct fill"); break; }
				case 34: { make_src(budget); const auto f{src.data()}; const auto l{f + src.size()}; const auto kind{r.below(4)};
					if(kind == 0) build("vector(pointers)", src_ids, [&](auto use) { use(SUT(V(f, l))); });
					else if(kind == 1) build("vector(forward range)", src_ids, [&](auto use) { using I = FwIt<T, std::forward_iterator_tag>; const I a{f}, z{l}; use(SUT(V(a, z))); });
					else if(kind == 2) build("vector(bidirectional range)", src_ids, [&](auto use) { using I = FwIt<T, std::bidirectional_iterator_tag>; const I a{f}, z{l}; use(SUT(V(a, z))); });
					else build("vector(input range)", src_ids, [&](auto use) { typename InIt<T>::Shared sh{f, 0}; const InIt<T> a{&sh, 0}, z{&sh, src.size()}; use(SUT(V(a, z))); });
					drop_src(); HIT("construct range"); break; }
				case 35: { const int a{id()}, c{id()}; const std::initializer_list<T> il{L::make(a), L::make(c)}; build("vector(ilist)", {norm(a), norm(c)}, [&](auto use) { use(SUT(V(il))); }); HIT("construct ilist"); break; }
				case 36: { const auto want{m}; build("vector(copy)", want, [&](auto use) { use(SUT(V(std::as_const(v)))); }); CHECK("C01", "copy-source", same(b.v, want), "copying changed the source"); HIT("construct copy"); break; }
				case 37: if(!faults) { // move construction, then give the value back to another box
					const auto d{v.data()}; const auto c{v.capacity()}; const auto moves{Life::moves};
					OP("construct by move from size %zu", n);
					{ V t{SUT(V(std::move(v)))};
						CHECK("C06", "move-transfers", t.data() == d && t.capacity() == c && (!L::tracked || Life::moves == moves), "move construction did not transfer the buffer");
						CHECK("C01", "moved-from-empty", v.empty() && v.size() == 0 && v.begin() == v.end(), "a moved-from vector is not empty");
						CHECK("C01", "construct", same(t, m), "move construction lost the value");
						m.clear();
						// destroyed here: the elements must die
					}
					HIT("construct move"); } break;
				case 38: if(n && !faults) { // change elements through every kind of access
					const auto j{r.below(n)}; const auto k{id()}; T t(L::make(k));
					OP("write element %zu", j);
					switch(r.below(4)) { case 0: v[j] = t; break; case 1: v.at(j) = t; break; case 2: *(v.begin() + j) = t; break; default: v.data()[j] = t; }
					m[j] = norm(k); HIT("element write"); } break;
				case 40: case 41: if(n) { // own elements in reverse order, through every kind of reverse iterator
					const auto f{r.chance(1, 3) ? 0 : r.below(n + 1)}, l{r.chance(1, 3) ? n : r.range(f, n)}; const std::vector<int> part(m.rend() - l, m.rend() - f); const auto type{r.below(3)};
					const auto with{[&](auto g) { const auto ends{[&](auto it) { g(std::make_reverse_iterator(it + l), std::make_reverse_iterator(it + f)); }}; switch(type) { case 0: ends(v.cbegin()); break; case 1: ends(v.begin()); break; default: ends(std::as_const(v).data()); } }};
					if(r.chance(1, 2)) { go(b, "assign(own reverse range)", Cap::any, part.size(), part, [&] { with([&](auto a, auto z) { SUT(v.assign(a, z)); }); }); m = part; HIT("assign own reversed"); }
					else if(n + part.size() <= top + 20) { go(b, "insert(own reverse range)", Cap::fits, n + part.size(), part, [&] { with([&](auto a, auto z) { SUT(v.insert(v.cbegin() + at, a, z)); }); }); m.insert(m.begin() + at, part.begin(), part.end()); HIT("insert own reversed"); } } break;
				case 42: case 43: if(n) { // own elements, picked in any order and any number of times
					const auto k{r.chance(1, 3) ? n : budget}; std::vector<std::size_t> idx(k); std::vector<int> part(k); for(std::size_t i{0}; i < k; ++i) { idx[i] = r.below(n); part[i] = m[idx[i]]; }
					const PickIt<T> a{v.data(), idx.data()}, z{v.data(), idx.data() + k};
					if(r.chance(1, 2)) { go(b, "assign(picked own elements)", Cap::any, k, part, [&] { SUT(v.assign(a, z)); }); m = part; HIT("assign own picked"); }
					else if(n + k <= top + 20) { go(b, "insert(picked own elements)", Cap::fits, n + k, part, [&] { SUT(v.insert(v.cbegin() + at, a, z)); }); m.insert(m.begin() + at, part.begin(), part.end()); HIT("insert own picked"); } } break;
				case 44: case 45: if(!faults) { // elements moved in from elsewhere
					make_src(budget); const auto k{src.size()}; const auto a{std::make_move_iterator(src.data())}, z{std::make_move_iterator(src.data() + k)};
					switch(r.below(3)) {
						case 0: go(b, "insert(move iterators)", Cap::fits, n + k, none, [&] { auto it{SUT(v.insert(v.cbegin() + at, a, z))}; CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); }); m.insert(m.begin() + at, src_ids.begin(), src_ids.end()); break;
						case 1: go(b, "assign(move iterators)", Cap::any, k, none, [&] { SUT(v.assign(a, z)); }); m = src_ids; break;
						default: { go(b, "= vector(move iterators)", Cap::any, k, none, [&] { SUT(v = V(a, z)); }); m = src_ids; } }
					if(L::tracked && !poisoned) for(auto & x : src) CHECK("C08", "rvalue-kept", L::get(x) == moved_from, "an element behind a move iterator was not moved");
					src.clear(); HIT("moved range"); } break;
				default: if(!faults && !o.m.empty() && &o != &b) { // range of another vector through its own iterators
					const auto part{o.m}; if(n + part.size() > top + 20) break; go(b, "insert(other vector's range)", Cap::fits, n + part.size(), part, [&] { SUT(v.insert(v.cbegin() + at, o.v.begin(), o.v.end())); }); m.insert(m.begin() + at, part.begin(), part.end()); HIT("insert other range"); } break;
			}
		}
		template<typename F>
		void nofault(Box & b, const char * op, Cap cap, std::size_t new_size, F && f) {
			const auto old{faults}; faults = false;
			if(old) heap::fail_all = true; // these operations need no memory
			go(b, op, cap, new_size, {}, f);
			heap::fail_all = false; faults = old;
		}
		void range_insert(Box & b, std::size_t at, std::size_t n) {
			V & v{b.v}; const auto f{src.data()}; const auto l{f + src.size()}; const auto k{src.size()};
			const auto chk = [&](auto it) { CHECK("C01", "returned", it - v.begin() == static_cast<std::ptrdiff_t>(at), "insert returned a wrong iterator"); };
			switch(r.below(4)) {
				case 0: go(b, "insert(pointers)", Cap::fits, n + k, src_ids, [&] { chk(SUT(v.insert(v.cbegin() + at, f, l))); }); break;
				case 1: go(b, "insert(forward range)", Cap::fits, n + k, src_ids, [&] { using I = FwIt<T, std::forward_iterator_tag>; const I a{f}, z{l}; chk(SUT(v.insert(v.cbegin() + at, a, z))); }); break;
				case 2: go(b, "insert(random access range)", Cap::fits, n + k, src_ids, [&] { using I = FwIt<T, std::random_access_iterator_tag>; const I a{f}, z{l}; chk(SUT(v.insert(v.cbegin() + at, a, z))); }); break;
				default: go(b, "insert(input range)", Cap::fits, n + k, src_ids, [&] { typename InIt<T>::Shared sh{f, 0}; const InIt<T> a{&sh, 0}, z{&sh, k}; chk(SUT(v.insert(v.cbegin() + at, a, z))); }); HIT("insert input range");
			}
			b.m.insert(b.m.begin() + at, src_ids.begin(), src_ids.end());
			drop_src(); HIT("insert range");
		}
		void range_assign(Box & b, std::size_t) {
			V & v{b.v}; const auto f{src.data()}; const auto l{f + src.size()}; const auto k{src.size()};
			switch(r.below(3)) {
				case 0: go(b, "assign(pointers)", Cap::any, k, src_ids, [&] { SUT(v.assign(f, l)); }); break;
				case 1: go(b, "assign(forward range)", Cap::any, k, src_ids, [&] { using I = FwIt<T, std::forward_iterator_tag>; const I a{f}, z{l}; SUT(v.assign(a, z)); }); break;
				default: go(b, "assign(input range)", Cap::any, k, src_ids, [&] { typename InIt<T>::Shared sh{f, 0}; const InIt<T> a{&sh, 0}, z{&sh, k}; SUT(v.assign(a, z)); }); HIT("assign input range");
			}
			b.m = src_ids;
			drop_src(); HIT("assign range");
		}
		void history() {
			const auto steps{r.range(10, 60)};
			if(!faults && r.chance(1, 40)) { top = r.chance(1, 3) && std::is_trivially_copyable_v<T> ? 6000 : 500; HIT("long vectors"); }
			for(std::size_t i{0}; i < steps && !poisoned; ++i) {
				step();
				drop_src();
				if(!poisoned) check_all("step");
			}
			if(!poisoned && L::tracked) { // quiescence
				{ heap::Sut s; pool.clear(); }
				CHECK("C07", "objects-leaked", Life::live == 0, "%zu objects survive their containers", Life::live);
			}
			if(mon::stop()) new std::vector<Box>(std::move(pool)); // do not run destructors on a broken state
		}
	};

	template<typename T> void plain(Rng & r) { Run<T> run{r, false}; run.history(); }
	template<typename T> void faulty(Rng & r) { Run<T> run{r, true}; run.history(); }

	template<typename T> void appending(Rng & r) { // amortised growth and content of long vectors
		std::size_t n{r.range(200, 20000)};
		if constexpr(std::is_trivially_copyable_v<T>) if(r.chance(1, 6)) n *= 20;
		const auto how{r.below(4)};
		OP("append %zu elements one by one (way %zu)", n, how);
		heap::allocs = 0;
		std::uint64_t grown{0};
		{
			ptl::vector<T> v;
			std::size_t cap{0};
			for(std::size_t i{0}; i < n && !poisoned; ++i) {
				T t(El<T>::make(static_cast<int>(i)));
				switch(how) { case 0: SUT(v.push_back(t)); break; case 1: SUT(v.emplace_back(std::move(t))); break; case 2: SUT(v.insert(v.cend(), std::move(t))); break; default: SUT(v.push_back(std::move(t))); }
				if(v.capacity() != cap) { ++grown; CHECK("C06", "capacity-shrank", v.capacity() > cap, "capacity went from %zu to %zu while appending", cap, v.capacity()); cap = v.capacity(); }
			}
			std::size_t log{1}; while((std::size_t{1} << log) < n) ++log;
			CHECK("C06", "growth-not-geometric", grown <= 4 * log + 20, "appending %zu elements reallocated %llu times", n, (unsigned long long)grown);
			for(std::size_t i{0}; i < n && !poisoned; ++i) CHECK("C01", "content", El<T>::get(v[i]) == El<T>::get(El<T>::make(static_cast<int>(i))), "element %zu of a long vector is wrong", i);
			HITN("reallocations while appending", grown); HIT("long append");
			if(poisoned) new ptl::vector<T>(std::move(v));
		}
		Hash h; h.add(n); h.add(how); state(h.h);
	}
#if PART == 0
	SCENARIO("vector<tracked> history", "C01,C06,C07,C08", plain<Tr<0>>, 4);
	SCENARIO("vector<tracked> faults", "C02,C07", faulty<Tr<0>>, 4);
	SCENARIO("vector<tracked> append", "C06", appending<Tr<0>>, 1);
	REQUIRE("C02", "element/iterator faults judged"); REQUIRE("C02", "allocation faults judged"); REQUIRE("C02", "constructor faults judged"); REQUIRE("C02", "retried without fault");
	REQUIRE("C07", "element/iterator faults judged"); REQUIRE("C07", "allocation faults judged");
	REQUIRE("C06", "operations within capacity"); REQUIRE("C06", "operations beyond capacity"); REQUIRE("C06", "shrink effective"); REQUIRE("C06", "long append"); REQUIRE("C06", "swap"); REQUIRE("C06", "move assign"); REQUIRE("C06", "construct move");
	REQUIRE("C01", "insert own range"); REQUIRE("C01", "long vectors"); REQUIRE("C06", "long vectors"); REQUIRE("C01", "insert own"); REQUIRE("C01", "insert own rvalue"); REQUIRE("C01", "push_back own"); REQUIRE("C01", "assign own range"); REQUIRE("C01", "assign fill own"); REQUIRE("C01", "insert fill own"); REQUIRE("C01", "resize own"); REQUIRE("C01", "assign own reversed"); REQUIRE("C01", "insert own reversed"); REQUIRE("C01", "assign own picked"); REQUIRE("C01", "insert own picked");
	REQUIRE("C01", "erase empty range"); REQUIRE("C01", "self copy-assign"); REQUIRE("C01", "self move-assign"); REQUIRE("C01", "self swap"); REQUIRE("C01", "insert input range"); REQUIRE("C01", "assign input range"); REQUIRE("C01", "construct range"); REQUIRE("C01", "construct move");
	REQUIRE("C08", "push_back move"); REQUIRE("C08", "moved range"); REQUIRE("C08", "insert move"); REQUIRE("C08", "shrink effective"); REQUIRE("C08", "erase range");
#elif PART == 1
	SCENARIO("vector<over-aligned> history", "C01,C06,C07,C08,C27", (plain<Tr<1, 64>>), 2);
	SCENARIO("vector<over-aligned> faults", "C27,C02,C07", (faulty<Tr<1, 64>>), 1);
	SCENARIO("vector<int> history", "C01,C06", plain<int>, 1);
	SCENARIO("vector<int> append", "C06", appending<int>, 1);
#elif PART == 2
	SCENARIO("vector<std::string> history", "C01,C07", plain<std::string>, 2);
	SCENARIO("vector<std::string> faults", "C02", faulty<std::string>, 2);
	SCENARIO("vector<char> history", "C01", plain<char>, 1);
#elif PART == 5
	SCENARIO("vector<double> history", "C01", plain<double>, 1); SCENARIO("vector<short> history", "C01", plain<short>, 1); SCENARIO("vector<bool> history", "C01", plain<bool>, 1);
#elif PART == 7
	SCENARIO("vector<unsigned long long> history", "C01", plain<unsigned long long>, 1); SCENARIO("vector<enum> history", "C01", plain<Color>, 1); SCENARIO("vector<pointer> history", "C01", plain<const int *>, 1);
#elif PART == 6
	SCENARIO("vector<3 bytes> history", "C01", plain<Odd3>, 1); SCENARIO("vector<padded> history", "C01", plain<Padded>, 1); SCENARIO("vector<default 77> history", "C01", plain<Starts>, 2);
#elif PART == 8
	SCENARIO("vector<self pointer> history", "C01", plain<Self>, 2); SCENARIO("vector<overloaded &> history", "C01", plain<Amp>, 1);
#elif PART == 9
	SCENARIO("vector<list of itself> history", "C01", plain<List>, 2); SCENARIO("vector<ptl::string> history", "C01", plain<ptl::string>, 2);
	REQUIRE("C01", "resize up");
#elif PART == 3
	SCENARIO("vector<align 8> history", "C27", (plain<Tr<2, 8>>), 1);
	SCENARIO("vector<align 32> history", "C27", (plain<Tr<3, 32, 40>>), 1);
	SCENARIO("vector<align 16> history", "C27", (plain<Tr<4, 16, 3>>), 1);
#elif PART == 4
	SCENARIO("vector<align 256> history", "C27", (plain<Tr<5, 256>>), 1);
	SCENARIO("vector<align 4096> history", "C27", (plain<Tr<6, 4096>>), 1);
#endif
}
