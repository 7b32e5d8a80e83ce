// string against a sequence model: histories, aliasing, embedded NULs, faults, capacity.
#include <algorithm>
#include <initializer_list>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include "../rt/iters.hpp"
#include "../rt/out.hpp"
#ifndef PART
#define PART 0
#endif

namespace {
	using namespace mon;
	using S = ptl::string;
	using namespace ptl::literals;

	std::string show(const std::string_view s) {
		std::string r{"\""};
		for(std::size_t i{0}; i < s.size() && i < 90; ++i) { const auto c{static_cast<unsigned char>(s[i])}; if(c >= 32 && c < 127 && c != '\\') r += s[i]; else { char b[8]; std::snprintf(b, sizeof b, "\\%02x", c); r += b; } }
		if(s.size() > 90) r += "...";
		return r + "\"";
	}

	struct Box { S s; std::string m; };
	enum class Cap { any, fits, keeps };

	struct Run {
		Rng & r;
		bool faults;
		std::vector<Box> pool;
		std::size_t top{90};

		explicit Run(Rng & r, bool faults) : r{r}, faults{faults} { pool.reserve(8); pool.resize(3); inc_may_throw = true; if(r.chance(1, 20)) top = 600; else if(!faults && r.chance(1, 40)) top = 20000; }

		char ch() { static const char odd[]{0, -1, -128, 127, ' ', '\n', 1, 'a', 'b'}; return r.chance(1, 3) ? odd[r.below(9)] : static_cast<char>(r.below(256)); }
		std::size_t len() {
			if(top > 90 && !faults && r.chance(1, 3)) return r.range(0, top / 3);
			switch(r.below(10)) { case 0: return 0; case 1: return 1; case 2: return r.range(21, 24); case 3: return r.range(44, 50); case 4: return r.range(2, 70); default: return r.range(0, 12); }
		}
		std::string text(std::size_t n) { std::string t(n, 0); for(auto & c : t) c = ch(); return t; }

		bool read(const S & s, std::string & out) { out.assign(s.data(), s.size()); return true; }
		void check_box(Box & b, const char * op) {
			if(poisoned) return;
			S & s{b.s}; const S & c{s};
			CHECK("C03", "size", c.size() == b.m.size(), "after %s: size %zu, expected %zu (%s)", op, c.size(), b.m.size(), show(b.m).c_str());
			CHECK("C06", "cap-below-size", c.capacity() >= c.size(), "after %s: capacity %zu < size %zu", op, c.capacity(), c.size());
			if(poisoned || c.size() != b.m.size()) { poisoned = true; return; }
			CHECK("C03", "content", std::memcmp(c.data(), b.m.data(), b.m.size()) == 0, "after %s: %s, expected %s", op, show({c.data(), c.size()}).c_str(), show(b.m).c_str());
			CHECK("C03", "terminator", c.data()[c.size()] == 0 && c.c_str() == c.data() && s.data() == c.data(), "after %s: the character after the last one is %d, not NUL (size %zu)", op, c.data()[c.size()], c.size());
			CHECK("C03", "empty", c.empty() == b.m.empty(), "after %s: empty() wrong", op);
			const std::string_view v{c};
			CHECK("C03", "string_view", v.size() == b.m.size() && (v.empty() || v.data() == c.data()), "after %s: conversion to string_view wrong", op);
			const auto n{b.m.size()};
			CHECK("C03", "iterators", static_cast<std::size_t>(c.end() - c.begin()) == n && static_cast<std::size_t>(s.end() - s.begin()) == n && std::equal(c.begin(), c.end(), b.m.begin()) && std::equal(c.rbegin(), c.rend(), b.m.rbegin()), "after %s: iteration wrong", op);
			if(n) { const auto k{r.below(n)}; CHECK("C03", "access", &c[k] == c.data() + k && &s[k] == c.data() + k && &c.at(k) == c.data() + k && &*(c.begin() + k) == c.data() + k && &s.at(k) == c.data() + k && &*(s.begin() + k) == c.data() + k && &*(s.cbegin() + k) == c.data() + k && &*(s.rbegin() + (n - 1 - k)) == c.data() + k && &s.front() == c.data() && &c.front() == c.data() && &s.back() == c.data() + n - 1 && &c.back() == c.data() + n - 1, "after %s: accessors of character %zu disagree", op, k); }
		}
		void check_all(const char * op) {
			for(auto & b : pool) check_box(b, op);
			Hash h; h.add(op, std::strlen(op));
			for(auto & b : pool) { h.add(b.m.size()); h.add(b.s.capacity()); }
			state(h.h);
		}
		static bool heaped(const S & s) { const auto a{reinterpret_cast<std::uintptr_t>(&s)}, d{reinterpret_cast<std::uintptr_t>(s.data())}; return d < a || d >= a + sizeof(s); }
		bool intact(const S & s, const std::string & m) { return s.size() == m.size() && std::memcmp(s.data(), m.data(), m.size()) == 0 && s.data()[s.size()] == 0; }

		const char * last_op{"start"};
		// one modifying operation on b giving `want`; in fault mode every fault point is hit and judged first
		template<typename F>
		void go(Box & b, const char * op, const std::string & want, Cap cap, F && f) {
			if(poisoned) return;
			last_op = op;
			OP("%s on %s (cap %zu) -> size %zu", op, show(b.m).c_str(), b.s.capacity(), want.size());
			const auto data{b.s.data()}; const auto c{b.s.capacity()};
			const auto blocks{heap::live_blocks};
			const bool alloc{r.chance(1, 2)};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(alloc) heap::fail_in = k; else Life::throw_in = k; }
				try { f(); }
				catch(const Injected &) { threw = true; CHECK("C04", "exception", Life::fired, "%s: an exception of the wrong kind arrived", op); }
				catch(const std::bad_alloc &) { threw = true; CHECK("C04", "exception", heap::fired, "%s: bad_alloc without a refused allocation", op); }
				catch(const std::exception & e) { Life::throw_in = heap::fail_in = -1; CHECK(faults ? "C04" : "C03", "exception", false, "%s: unexpected exception %s", op, e.what()); return; }
				const auto fired{Life::fired || heap::fired};
				Life::throw_in = heap::fail_in = -1;
				if(!faults) { CHECK("C03", "exception", !threw, "%s: unexpected exception", op); break; }
				if(!threw) { CHECK("C04", "swallowed", !fired, "%s: the failure at point %ld was swallowed", op, k); break; }
				if(alloc) HIT("allocation faults judged"); else HIT("iterator faults judged");
				CHECK("C04", "changed", intact(b.s, b.m), "%s failed at fault point %ld: %s (terminator %d) expected %s", op, k, show({b.s.data(), b.s.size()}).c_str(), b.s.data()[b.s.size()], show(b.m).c_str());
				CHECK("C04", "leak", heap::live_blocks == blocks, "%s failed at fault point %ld: %zu blocks before, %zu after", op, k, blocks, heap::live_blocks);
				if(mon::stop()) return;
				Hash h; h.add(op, std::strlen(op)); h.add(k); h.add(b.m.size()); h.add(b.s.capacity()); h.add(alloc); state(h.h);
				if(k > 5000) harness_error("%s never completes", op);
			}
			if(cap == Cap::keeps || (cap == Cap::fits && want.size() <= c)) {
				CHECK("C06", "realloc-within-capacity", (b.s.data() == data && b.s.capacity() == c), "%s (size %zu -> %zu, capacity %zu) changed the buffer or the capacity (now %zu)", op, b.m.size(), want.size(), c, b.s.capacity());
				HIT("string operations within capacity");
			} else if(cap == Cap::fits) HIT("string operations beyond capacity");
			b.m = want;
			check_box(b, op);
		}
		template<typename F>
		void nofault(Box & b, const char * op, const std::string & want, Cap cap, F && f) {
			const auto old{faults}; faults = false;
			if(old) heap::fail_all = true;
			go(b, op, want, cap, f);
			heap::fail_all = false; faults = old;
		}
		template<typename F>
		void build(const char * op, const std::string & want, F && f) {
			static const std::size_t inline_cap{S{}.capacity()}; // f(use) calls use(S &&)
			if(poisoned) return;
			last_op = op;
			OP("construct %s -> %s", op, show(want).c_str());
			const auto blocks{heap::live_blocks};
			const bool alloc{r.chance(1, 2)};
			auto & b{pool[r.below(pool.size())]};
			for(long k{0};; ++k) {
				bool threw{false};
				if(faults) { Life::fired = heap::fired = false; if(alloc) heap::fail_in = k; else Life::throw_in = k; }
				const auto before{heap::allocs};
				try { f([&](S && s) {
					Life::throw_in = heap::fail_in = -1;
					if(want.size() <= inline_cap && !faults) { CHECK("C06", "short-text-allocates", heap::allocs == before, "%s allocated memory for %zu characters, an empty string has room for %zu", op, want.size(), inline_cap); HIT("short texts constructed"); }
					CHECK("C03", "construct", intact(s, want), "%s: %s (terminator %d) expected %s", op, show({s.data(), s.size()}).c_str(), s.data()[s.size()], show(want).c_str());
					CHECK("C06", "cap-below-size", s.capacity() >= s.size(), "%s: capacity below size", op);
					if(r.chance(2, 3)) { SUT(b.s = std::move(s)); b.m = want; }
				}); }
				catch(const Injected &) { threw = true; }
				catch(const std::bad_alloc &) { threw = true; }
				Life::throw_in = heap::fail_in = -1;
				if(!faults) { CHECK("C03", "exception", !threw, "%s: unexpected exception", op); break; }
				if(!threw) { CHECK("C04", "swallowed", !(Life::fired || heap::fired), "%s swallowed a failure", op); break; }
				HIT("string constructor faults judged");
				CHECK("C04", "ctor-leak", heap::live_blocks == blocks, "%s failed at fault point %ld and leaked", op, k);
				if(mon::stop()) return;
				if(k > 5000) harness_error("%s never completes", op);
			}
		}
		void resync(Box & b, const char * what) { // a moved-from string is valid: whatever it holds now is its value
			if(poisoned) return;
			const auto & c{b.s};
			CHECK("C03", "moved-from", c.size() <= c.capacity() && c.data()[c.size()] == 0 && static_cast<std::size_t>(c.end() - c.begin()) == c.size(), "%s left its source invalid", what);
			if(!poisoned) b.m.assign(c.data(), c.size());
		}
		// calls g(first, last) with a range of the requested kind over exactly t's characters
		template<typename G>
		void range(const std::string & t, const char *& kind, G && g) {
			std::unique_ptr<char[]> mem{new char[t.size()]};
			std::copy(t.begin(), t.end(), mem.get());
			const char * const f{mem.get()}; const char * const l{f + t.size()};
			switch(rk) {
				case 0: kind = "pointers"; g(f, l); break;
				case 1: { kind = "input"; InIt<char>::Shared sh{f, 0}; g(InIt<char>{&sh, 0}, InIt<char>{&sh, t.size()}); HIT("input ranges"); break; }
				case 2: { kind = "forward"; using I = FwIt<char, std::forward_iterator_tag>; g(I{f}, I{l}); break; }
				case 3: { kind = "bidirectional"; using I = FwIt<char, std::bidirectional_iterator_tag>; g(I{f}, I{l}); break; }
				case 4: { kind = "random access"; using I = FwIt<char, std::random_access_iterator_tag>; g(I{f}, I{l}); break; }
				default: { kind = "mutable pointers"; g(mem.get(), mem.get() + t.size()); }
			}
		}
		std::size_t rk{0};
		// calls g with a part of s as iterators of one of four kinds
		template<typename G> void part(S & s, std::size_t f, std::size_t l, G && g) {
			switch(rk % 4) { case 0: g(s.cbegin() + f, s.cbegin() + l); break; case 1: g(s.begin() + f, s.begin() + l); break; case 2: g(s.data() + f, s.data() + l); break; default: g(std::as_const(s).data() + f, std::as_const(s).data() + l); }
		}

		void step() {
			auto & b{pool[r.below(pool.size())]};
			auto & o{pool[r.below(pool.size())]};
			S & s{b.s}; const std::string m{b.m};
			const auto n{m.size()};
			const auto add{n > top ? 0 : len()};
			const auto at{r.below(n + 1)};
			const auto f{r.below(n + 1)}, l{r.chance(1, 5) ? f : r.chance(1, 4) ? n : r.range(f, n)};       // a range of s
			const auto of{r.below(n + 1)}, ol{n > top ? of : r.chance(1, 4) ? n : r.range(of, n)};            // a range of s as argument
			const std::string own{m.substr(of, ol - of)};
			const auto c{ch()};
			rk = r.below(6);
			const char * kind{""};
			const auto ret{[&](auto it, std::size_t want) { CHECK("C03", "returned", it - s.begin() == static_cast<std::ptrdiff_t>(want), "insert/erase returned position %td, expected %zu", it - s.begin(), want); }};
			const auto self{[&](const S & x) { CHECK("C03", "returned", &x == &s, "a wrong reference was returned"); }};
			const std::initializer_list<char> il{c, 0, 'x'};
			const std::string ils{il.begin(), il.end()};
			const auto ins{[&](const std::string & what) { auto w{m}; w.insert(at, what); return w; }};
			const auto rep{[&](const std::string & what) { auto w{m}; w.replace(f, l - f, what); return w; }};
			std::unique_ptr<char[]> exact{new char[add]}; // exactly sized: reading past it is caught
			const auto t{text(add)};
			std::copy(t.begin(), t.end(), exact.get());
			const std::string_view sv{exact.get(), add};
			switch(r.below(71)) {
				// --- append
				case 0: go(b, "append(view)", m + t, Cap::fits, [&] { SUT(s.append(sv)); }); HIT("append view"); break;
				case 1: go(b, "+=(view)", m + t, Cap::fits, [&] { self(SUT(s += sv)); }); break;
				case 2: go(b, "append(own view)", m + own, Cap::fits, [&] { SUT(s.append(std::string_view{s.data() + of, ol - of})); }); HIT("append own"); break;
				case 3: go(b, "append(own iterators)", m + own, Cap::fits, [&] { part(s, of, ol, [&](auto a, auto z) { SUT(s.append(a, z)); }); }); HIT("append own"); break;
				case 4: if(2 * n <= 2 * top) { go(b, "+= self", m + m, Cap::fits, [&] { self(SUT(s += s)); }); HIT("append self"); } break;
				case 5: if(n + o.m.size() <= 2 * top) go(b, "+= string", m + o.m, Cap::fits, [&] { self(SUT(s += std::as_const(o.s))); }); break;
				case 6: go(b, "append(count, char)", m + std::string(add, c), Cap::fits, [&] { SUT(s.append(add, c)); }); HIT("append fill"); break;
				case 7: go(b, "append(ilist)", m + ils, Cap::fits, [&] { SUT(s.append(il)); }); break;
				case 8: go(b, "+= ilist", m + ils, Cap::fits, [&] { self(SUT(s += il)); }); break;
				case 9: go(b, "+= char", m + c, Cap::fits, [&] { self(SUT(s += c)); }); break;
				case 10: go(b, "+= own char", n ? m + m[at % n] : m + c, Cap::fits, [&] { self(n ? SUT(s += s[at % n]) : SUT(s += c)); }); break;
				case 11: case 12: go(b, "append(range)", m + t, Cap::fits, [&] { range(t, kind, [&](auto x, auto y) { SUT(s.append(x, y)); }); }); note("  (%s)", kind); HIT("append range"); break;
				case 13: go(b, "push_back", m + c, Cap::fits, [&] { auto & x{SUT(s.push_back(c))}; CHECK("C03", "returned", &x == s.data() + n, "push_back returned a wrong reference"); }); HIT("push_back"); break;
				case 14: if(n) { go(b, "push_back(own char)", m + m[at % n], Cap::fits, [&] { SUT(s.push_back(s[at % n])); }); } break;
				// --- insert
				case 15: go(b, "insert(view)", ins(t), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, sv)), at); }); HIT("insert view"); break;
				case 16: go(b, "insert(own view)", ins(own), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, std::string_view{s.data() + of, ol - of})), at); }); HIT("insert own"); break;
				case 17: go(b, "insert(own iterators)", ins(own), Cap::fits, [&] { part(s, of, ol, [&](auto a, auto z) { ret(SUT(s.insert(s.begin() + at, a, z)), at); }); }); HIT("insert own"); break;
				case 18: go(b, "insert(own reversed)", ins(std::string(own.rbegin(), own.rend())), Cap::fits, [&] { ret(SUT(s.insert(s.begin() + at, std::make_reverse_iterator(s.cbegin() + ol), std::make_reverse_iterator(s.cbegin() + of))), at); }); HIT("insert own reversed"); break;
				case 19: go(b, "insert(count, char)", ins(std::string(add, c)), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, add, c)), at); }); HIT("insert fill"); break;
				case 20: go(b, "insert(char)", ins(std::string(1, c)), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, c)), at); }); break;
				case 21: go(b, "insert(ilist)", ins(ils), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, il)), at); }); break;
				case 22: case 23: go(b, "insert(range)", ins(t), Cap::fits, [&] { range(t, kind, [&](auto x, auto y) { ret(SUT(s.insert(s.cbegin() + at, x, y)), at); }); }); note("  (%s)", kind); HIT("insert range"); break;
				// --- erase
				case 24: case 25: { auto w{m}; w.erase(f, l - f); nofault(b, "erase(range)", w, Cap::keeps, [&] { ret(SUT(s.erase(s.cbegin() + f, s.cbegin() + l)), f); }); if(f == l) HIT("erase empty range"); else HIT("erase range"); break; }
				case 26: if(n) { auto w{m}; w.erase(at % n, 1); nofault(b, "erase(pos)", w, Cap::keeps, [&] { ret(SUT(s.erase(s.begin() + at % n)), at % n); }); } break;
				case 27: if(n) { auto w{m}; w.pop_back(); nofault(b, "pop_back", w, Cap::keeps, [&] { SUT(s.pop_back()); }); } break;
				case 28: nofault(b, "clear", "", Cap::keeps, [&] { SUT(s.clear()); }); break;
				// --- replace
				case 29: case 30: go(b, "replace(view)", rep(t), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, sv))); }); HIT("replace view"); break;
				case 31: go(b, "replace(own view)", rep(own), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, std::string_view{s.data() + of, ol - of}))); }); HIT("replace own"); break;
				case 32: go(b, "replace(own iterators)", rep(own), Cap::any, [&] { part(s, of, ol, [&](auto a, auto z) { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, a, z))); }); }); HIT("replace own"); break;
				case 33: case 34: go(b, "replace(count, char)", rep(std::string(add, c)), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, add, c))); }); HIT("replace fill"); break;
				case 35: case 36: go(b, "replace(ilist)", rep(ils), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, il))); }); HIT("replace ilist"); break;
				case 37: case 38: go(b, "replace(range)", rep(t), Cap::any, [&] { range(t, kind, [&](auto x, auto y) { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, x, y))); }); }); note("  (%s)", kind); HIT("replace range"); break;
				// --- assign
				case 39: go(b, "assign(view)", t, Cap::any, [&] { SUT(s.assign(sv)); }); break;
				case 40: go(b, "= view", t, Cap::any, [&] { self(SUT(s = sv)); }); break;
				case 41: go(b, "assign(own view)", own, Cap::any, [&] { SUT(s.assign(std::string_view{s.data() + of, ol - of})); }); HIT("assign own"); break;
				case 42: go(b, "assign(own iterators)", own, Cap::any, [&] { part(s, of, ol, [&](auto a, auto z) { SUT(s.assign(a, z)); }); }); HIT("assign own"); break;
				case 43: go(b, "= own view", own, Cap::any, [&] { self(SUT(s = std::string_view{s.data() + of, ol - of})); }); HIT("assign own"); break;
				case 44: go(b, "assign(count, char)", std::string(add, c), Cap::any, [&] { SUT(s.assign(add, c)); }); break;
				case 45: go(b, "assign(ilist)", ils, Cap::any, [&] { if(at % 2) SUT(s.assign(il)); else self(SUT(s = il)); }); break;
				case 46: case 47: go(b, "assign(range)", t, Cap::any, [&] { range(t, kind, [&](auto x, auto y) { SUT(s.assign(x, y)); }); }); note("  (%s)", kind); HIT("assign range"); break;
				case 48: { const auto w{o.m}; const S * src{&o.s}; go(b, &o == &b ? "= self" : "= copy", w, Cap::any, [&] { self(SUT(s = *src)); }); if(&o == &b) HIT("self copy-assign"); else HIT("copy assign"); break; }
				case 49: { const auto w{o.m}; S * src{&o.s}; if(&o == &b) { nofault(b, "= self &&", w, Cap::any, [&] { self(SUT(s = std::move(*src))); }); HIT("self move-assign"); }
					else { const auto d{o.s.data()}; const auto k{o.s.capacity()}; const auto h{heaped(o.s)}; nofault(b, "= move", w, Cap::any, [&] { self(SUT(s = std::move(*src))); }); if(h) { CHECK("C06", "move-transfers", s.data() == d && s.capacity() == k, "move assignment did not transfer the buffer"); HIT("move of a buffer"); } resync(o, "move assignment"); HIT("move assign"); } break; }
				case 50: { const auto w{o.m}; S * src{&o.s}; const auto da{s.data()}, db{o.s.data()}; const auto ca{s.capacity()}, cb{o.s.capacity()}; const auto ha{heaped(s)}, hb{heaped(o.s)};
					nofault(b, &o == &b ? "swap self" : "swap", w, Cap::any, [&] { if(at % 2) SUT(s.swap(*src)); else { using std::swap; SUT(swap(s, *src)); } });
					if(&o != &b && !poisoned) { o.m = m; check_box(o, "swap"); HIT("swap");
						CHECK("C06", "swap-transfers", (!ha || (o.s.data() == da && o.s.capacity() == ca)) && (!hb || (s.data() == db && s.capacity() == cb)), "swap did not exchange the buffers"); if(ha && hb) HIT("swap of buffers"); } else HIT("self swap"); break; }
				// --- size and capacity
				case 51: { const auto k{r.chance(1, 3) ? r.below(n + 1) : n + add}; auto w{m}; w.resize(k); go(b, "resize(n)", w, Cap::fits, [&] { SUT(s.resize(k)); }); HIT("resize"); break; }
				case 52: { const auto k{r.chance(1, 3) ? r.below(n + 1) : n + add}; auto w{m}; w.resize(k, c); go(b, "resize(n, char)", w, Cap::fits, [&] { SUT(s.resize(k, c)); }); HIT("resize value"); break; }
				case 53: { const auto k{r.chance(1, 2) ? r.below(top + 30) : r.below(n + 1)}; const auto cap{s.capacity()}; go(b, "reserve", m, Cap::any, [&] { SUT(s.reserve(k)); });
					CHECK("C06", "reserve", s.capacity() >= k, "reserve(%zu) left the capacity at %zu", k, s.capacity()); CHECK("C06", "reserve-shrinks", s.capacity() >= cap, "reserve(%zu) shrank the capacity from %zu to %zu", k, cap, s.capacity()); HIT("reserve"); break; }
				case 54: { const auto cap{s.capacity()}; nofault(b, "shrink_to_fit", m, Cap::any, [&] { SUT(s.shrink_to_fit()); }); CHECK("C06", "shrink-grows", s.capacity() <= cap, "shrink_to_fit increased the capacity from %zu to %zu", cap, s.capacity()); if(s.capacity() < cap) HIT("shrink effective"); break; }
				// --- substrings and concatenation
				case 55: if(r.chance(1, 2)) { build("substr(offset)", m.substr(f), [&](auto use) { use(SUT(std::as_const(s).substr(f))); }); } else build("substr(offset, count)", m.substr(f, l - f), [&](auto use) { use(SUT(std::as_const(s).substr(f, l - f))); }); HIT("substr"); break;
				case 56: if(!poisoned) { // substr of an rvalue
					const auto w{r.chance(1, 2) ? m.substr(f) : m.substr(f, l - f)}; const bool two{w.size() != n - f};
					last_op = "substr &&"; OP("substr && of %s (cap %zu) -> %s", show(m).c_str(), s.capacity(), show(w).c_str());
					heap::fail_all = faults;
					{ S x{two ? SUT(std::move(s).substr(f, l - f)) : SUT(std::move(s).substr(f))};
					heap::fail_all = false;
					CHECK("C03", "substr-rvalue", intact(x, w), "substr of an rvalue: %s expected %s", show({x.data(), x.size()}).c_str(), show(w).c_str());
					resync(b, "substr of an rvalue");
					if(&o != &b) { SUT(o.s = std::move(x)); o.m = w; } else if(!poisoned) { SUT(s = std::move(x)); b.m = w; } }
					HIT("substr rvalue"); } break;
				case 57: switch(r.below(7)) {
					case 0: build("string + string", m + o.m, [&](auto use) { use(SUT(std::as_const(s) + std::as_const(o.s))); }); break;
					case 1: build("string + view", m + t, [&](auto use) { use(SUT(s + sv)); }); break;
					case 2: build("view + string", t + m, [&](auto use) { use(SUT(sv + s)); }); break;
					case 3: build("string + char", m + c, [&](auto use) { use(SUT(s + c)); }); break;
					case 4: build("char + string", c + m, [&](auto use) { use(SUT(c + s)); }); break;
					case 5: build("own view + string", own + m, [&](auto use) { use(SUT(std::string_view{s.data() + of, ol - of} + s)); }); break;
					default: build("string + literal", m + "lit", [&](auto use) { use(SUT(s + "lit")); });
				} HIT("concatenation"); break;
				// --- constructors
				case 58: switch(r.below(6)) {
					case 0: build("string(view)", t, [&](auto use) { use(SUT(S{sv})); }); break;
					case 1: build("string(count, char)", std::string(add, c), [&](auto use) { use(SUT(S(add, c))); }); break;
					case 2: build("string(ilist)", ils, [&](auto use) { use(SUT(S(il))); }); break;
					case 3: build("string(copy)", m, [&](auto use) { use(SUT(S(std::as_const(s)))); }); HIT("construct copy"); break;
					case 4: build("string()", "", [&](auto use) { use(SUT(S())); }); break;
					default: build("string(own view)", own, [&](auto use) { use(SUT(S{std::string_view{s.data() + of, ol - of}})); });
				} break;
				case 59: build("string(range)", t, [&](auto use) { range(t, kind, [&](auto x, auto y) { use(SUT(S(x, y))); }); }); note("  (%s)", kind); HIT("construct range"); break;
				case 60: if(!poisoned) { last_op = "move construction"; OP("move construct from %s", show(m).c_str()); const auto d{s.data()}; const auto k{s.capacity()}; const auto h{heaped(s)}; heap::fail_all = faults; { S x{SUT(S(std::move(s)))}; heap::fail_all = false;
					CHECK("C06", "move-transfers", !h || (x.data() == d && x.capacity() == k), "move construction did not transfer the buffer");
					CHECK("C03", "construct", intact(x, m), "move construction: %s expected %s", show({x.data(), x.size()}).c_str(), show(m).c_str()); resync(b, "move construction");
					if(r.chance(3, 4) && !poisoned) { heap::fail_all = faults; SUT(s = std::move(x)); heap::fail_all = false; b.m = m; } } HIT("construct move"); } break;
				case 61: switch(r.below(5)) {
					case 0: build("\"\"_s", "", [&](auto use) { use(SUT(""_s)); }); break;
					case 1: build("\"a\\0b\"_s", std::string("a\0b", 3), [&](auto use) { use(SUT("a\0b"_s)); }); break;
					case 2: build("literal ending in NUL", std::string("abc\0", 4), [&](auto use) { use(SUT("abc\0"_s)); }); break;
					case 3: build("long literal", std::string("a literal \0 longer than the inline buffer \xff\x80", 44), [&](auto use) { use(SUT("a literal \0 longer than the inline buffer \xff\x80"_s)); }); break;
					default: build("22 chars", "0123456789012345678901", [&](auto use) { use(SUT("0123456789012345678901"_s)); });
				} HIT("literal"); break;
				case 62: if(n && !poisoned) { const auto k{at % n}; OP("write character %zu of %zu", k, n);
					switch(r.below(6)) { case 0: s[k] = c; break; case 1: s.at(k) = c; break; case 2: *(s.begin() + k) = c; break; case 3: s.data()[k] = c; break; case 4: *(s.rbegin() + (n - 1 - k)) = c; break; default: if(k == 0) s.front() = c; else if(k == n - 1) s.back() = c; else s[k] = c; }
					b.m[k] = c; check_box(b, "element write"); HIT("element write"); } break;
				case 64: case 65: { // own characters in reverse order, through every kind of reverse iterator
					const std::string w{own.rbegin(), own.rend()}; const auto same{r.chance(1, 2)}; const auto x{same ? of : f}, y{same ? ol : l}; auto q{m}; q.replace(x, y - x, w); const auto what{r.below(4)}, type{r.below(3)};
					const auto with{[&](auto g) { const auto ends{[&](auto it) { g(std::make_reverse_iterator(it + ol), std::make_reverse_iterator(it + of)); }}; switch(type) { case 0: ends(s.cbegin()); break; case 1: ends(s.begin()); break; default: ends(std::as_const(s).data()); } }};
					switch(what) { case 0: go(b, "append(own reversed)", m + w, Cap::fits, [&] { with([&](auto a, auto z) { SUT(s.append(a, z)); }); }); HIT("append own reversed"); break;
						case 1: go(b, "insert(own reversed)", ins(w), Cap::fits, [&] { with([&](auto a, auto z) { ret(SUT(s.insert(s.begin() + at, a, z)), at); }); }); break;
						case 2: go(b, "assign(own reversed)", w, Cap::any, [&] { with([&](auto a, auto z) { SUT(s.assign(a, z)); }); }); HIT("assign own reversed"); break;
						default: go(b, "replace(own reversed)", q, Cap::any, [&] { with([&](auto a, auto z) { self(SUT(s.replace(s.cbegin() + x, s.cbegin() + y, a, z))); }); }); HIT("replace own reversed"); } break; }
				case 66: case 67: if(n) { // own characters, picked in any order and any number of times
					const auto k{r.chance(1, 3) ? l - f : add}; std::vector<std::size_t> idx(k); std::string w(k, 0); for(std::size_t i{0}; i < k; ++i) { idx[i] = r.below(n); w[i] = m[idx[i]]; }
					const PickIt<char> a{s.data(), idx.data()}, z{s.data(), idx.data() + k};
					switch(r.below(4)) { case 0: go(b, "append(picked own characters)", m + w, Cap::fits, [&] { SUT(s.append(a, z)); }); break;
						case 1: go(b, "insert(picked own characters)", ins(w), Cap::fits, [&] { ret(SUT(s.insert(s.begin() + at, a, z)), at); }); break;
						case 2: go(b, "assign(picked own characters)", w, Cap::any, [&] { SUT(s.assign(a, z)); }); break;
						default: go(b, "replace(picked own characters)", rep(w), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, a, z))); }); }
					HIT("own picked"); } break;
				case 68: case 69: case 70: if(n) { // an own character, many times
					const auto j{r.below(n)}; const std::string w(add, m[j]); const auto ref{[&]() -> char & { switch(rk) { case 0: return s[j]; case 1: return *(s.begin() + j); case 2: return s.at(j); case 3: return s.data()[j]; case 4: return *(s.rbegin() + (n - 1 - j)); default: return const_cast<char &>(std::as_const(s)[j]); } }};
					switch(r.below(6)) { case 0: go(b, "append(count, own char)", m + w, Cap::fits, [&] { SUT(s.append(add, ref())); }); break;
						case 1: go(b, "insert(count, own char)", ins(w), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, add, ref())), at); }); break;
						case 2: go(b, "insert(own char)", ins(std::string(1, m[j])), Cap::fits, [&] { ret(SUT(s.insert(s.cbegin() + at, ref())), at); }); break;
						case 3: go(b, "assign(count, own char)", w, Cap::any, [&] { SUT(s.assign(add, ref())); }); break;
						case 4: { auto q{m}; q.resize(n + add, m[j]); go(b, "resize(n, own char)", q, Cap::fits, [&] { SUT(s.resize(n + add, ref())); }); break; }
						default: go(b, "replace(count, own char)", rep(w), Cap::any, [&] { self(SUT(s.replace(s.cbegin() + f, s.cbegin() + l, add, ref()))); }); }
					HIT("own character many times"); } break;
				default: if(!poisoned) { OP("stream out %s", show(m).c_str()); written(r, "C03", std::as_const(s), m); HIT("stream out"); } break;
			}
		}
		void history() {
			const auto steps{r.range(10, 50)}; if(top > 10000) HIT("long strings");
			for(std::size_t i{0}; i < steps && !poisoned; ++i) { step(); Life::throw_in = heap::fail_in = -1; heap::fail_all = false; if(!poisoned) check_all(last_op); }
			if(!mon::stop()) { { heap::Sut g; pool.clear(); } CHECK(mon::deciding("C04") ? "C04" : "C07", "leak", heap::live_blocks == 0, "%zu blocks survive their strings", heap::live_blocks); }
			else new std::vector<Box>(std::move(pool));
		}
	};
	void plain(Rng & r) { Run run{r, false}; run.history(); }
	void faulty(Rng & r) { Run run{r, true}; run.history(); }
	void boundary(Rng & r) { // every pair of lengths around the inline/heap boundary through copy, move, swap, assign
		inc_may_throw = false; heap::Sut sut;
		for(std::size_t a{18}; a <= 26 && !poisoned; ++a) for(std::size_t b : {std::size_t{0}, std::size_t{1}, std::size_t{21}, std::size_t{22}, std::size_t{23}, std::size_t{24}, std::size_t{47}, std::size_t{48}, std::size_t{49}}) {
			std::string ma(a, 0), mb(b, 0); for(auto & c : ma) c = static_cast<char>(r.next()); for(auto & c : mb) c = static_cast<char>(r.next());
			OP("lengths %zu and %zu", a, b);
			const auto is{[&](const S & s, const std::string & m, const char * op) { CHECK("C03", "content", s.size() == m.size() && std::memcmp(s.data(), m.data(), m.size()) == 0 && s.data()[s.size()] == 0, "%s (lengths %zu, %zu): %s expected %s", op, a, b, show({s.data(), s.size()}).c_str(), show(m).c_str()); }};
			const std::string_view va{ma}, vb{mb};
			{ S x{va}, y{vb}; x.swap(y); is(x, mb, "swap"); is(y, ma, "swap"); y.swap(x); is(x, ma, "swap"); is(y, mb, "swap"); }
			{ S x{va}, y{vb}; x = y; is(x, mb, "copy"); is(y, mb, "copy"); x = va; is(x, ma, "="); is(y, mb, "copy"); }
			{ S x{va}, y{vb}; x = std::move(y); is(x, mb, "move"); y = va; is(y, ma, "reuse"); is(x, mb, "move"); }
			{ S x{va}; S y{std::move(x)}; x = vb; is(x, mb, "reuse"); is(y, ma, "move"); }
			{ S x{va}; x.resize(b); auto w{ma}; w.resize(b); is(x, w, "resize"); x.shrink_to_fit(); is(x, w, "shrink"); x.resize(a, 'z'); w.resize(a, 'z'); is(x, w, "resize"); }
			{ S x{va}; x.append(vb); is(x, ma + mb, "append"); x.erase(x.begin(), x.begin() + a); is(x, mb, "erase"); x.shrink_to_fit(); is(x, mb, "shrink"); }
			{ S x{va}; x.insert(x.begin() + a / 2, vb); auto w{ma}; w.insert(a / 2, mb); is(x, w, "insert"); x.replace(x.begin(), x.begin() + a / 2, vb); w.replace(0, a / 2, mb); is(x, w, "replace"); }
			Hash h; h.add(a); h.add(b); { heap::Out o; state(h.h); }
			if(poisoned) return;
		}
		HIT("boundary lengths swept");
	}
#if PART == 0
	SCENARIO("string history", "C03,C06,C07", plain, 12);
	SCENARIO("string faults", "C04,C07", faulty, 6);
	SCENARIO("string boundary", "C03,C07", boundary, 1);
	REQUIRE("C04", "iterator faults judged"); REQUIRE("C04", "allocation faults judged"); REQUIRE("C04", "string constructor faults judged"); REQUIRE("C04", "input ranges"); REQUIRE("C04", "replace range"); REQUIRE("C04", "insert range"); REQUIRE("C04", "append range"); REQUIRE("C04", "assign range");
	REQUIRE("C03", "boundary lengths swept"); REQUIRE("C03", "append own"); REQUIRE("C03", "append self"); REQUIRE("C03", "insert own"); REQUIRE("C03", "insert own reversed"); REQUIRE("C03", "append own reversed"); REQUIRE("C03", "assign own reversed"); REQUIRE("C03", "replace own reversed"); REQUIRE("C03", "own picked"); REQUIRE("C03", "own character many times"); REQUIRE("C03", "long strings"); REQUIRE("C06", "long strings"); REQUIRE("C03", "replace own"); REQUIRE("C03", "assign own"); REQUIRE("C03", "self copy-assign"); REQUIRE("C03", "self move-assign"); REQUIRE("C03", "self swap"); REQUIRE("C03", "substr rvalue"); REQUIRE("C03", "literal"); REQUIRE("C03", "input ranges"); REQUIRE("C03", "erase empty range"); REQUIRE("C03", "stream out"); REQUIRE("C03", "shrink effective");
	REQUIRE("C06", "short texts constructed"); REQUIRE("C06", "string operations within capacity"); REQUIRE("C06", "string operations beyond capacity"); REQUIRE("C06", "swap of buffers"); REQUIRE("C06", "move of a buffer");
#endif
}
