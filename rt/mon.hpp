// Runtime of the monitors: seeded cases, operation log, verdicts, coverage counters.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>

namespace mon {
	inline std::uint64_t mix(std::uint64_t x) noexcept {
		x += 0x9E3779B97F4A7C15ull;
		x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
		x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
		return x ^ (x >> 31);
	}
	struct Rng {
		std::uint64_t s;
		std::uint64_t next() noexcept { return mix(s += 0x9E3779B97F4A7C15ull); }
		std::size_t below(std::size_t n) noexcept { return n ? static_cast<std::size_t>(next() % n) : 0; }
		std::size_t range(std::size_t lo, std::size_t hi) noexcept { return lo + below(hi - lo + 1); } // inclusive
		bool chance(unsigned num, unsigned den) noexcept { return next() % den < num; }
	};
	struct Hash { // order dependent hash of an observation sequence
		std::uint64_t h{0xcbf29ce484222325ull};
		void add(std::uint64_t x) noexcept { h = mix(h ^ x) + 0x2545F4914F6CDD1Dull; }
		void add(const void * p, std::size_t n) noexcept { auto c{static_cast<const unsigned char *>(p)}; add(n); for(std::size_t i{0}; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ull; }
	};

	extern const char * prop;        // the property this process decides
	extern std::uint64_t case_index; // current case
	extern bool poisoned;            // another property's (or a known) violation happened in this case: stop it
	extern bool tainted;             // another property's violation happened: finish judging this operation, then stop
	inline bool stop() noexcept { if(tainted) poisoned = true; return poisoned; }
	extern std::atomic<std::uint64_t> n_ops, n_checks;

	inline bool deciding(const char * p) noexcept { return std::strcmp(p, prop) == 0; }

	// Reports that property p is broken. Ends the process if p is the property being decided and the finding is not a
	// known one; otherwise the case is abandoned as soon as its driver notices `poisoned`.
	void violate(const char * p, const char * key, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
	void note(const char * fmt, ...) __attribute__((format(printf, 1, 2))); // operation log of the current case
	[[noreturn]] void harness_error(const char * fmt, ...) __attribute__((format(printf, 1, 2)));

	struct Counter {
		const char * name;
		std::atomic<std::uint64_t> n{0};
		Counter * next;
		explicit Counter(const char * name) noexcept;
	};
	struct Require { const char * prop; const char * name; Require * next; Require(const char * prop, const char * name) noexcept; };
	void state(std::uint64_t hash); // a (hash of a) distinct non-trivial state or behaviour that was observed and judged

	struct Scenario {
		const char * name; const char * props; void (*fn)(Rng &); unsigned weight; Scenario * next;
		Scenario(const char * name, const char * props, void (*fn)(Rng &), unsigned weight = 1) noexcept;
	};
	extern bool thorough;
	extern int round; // a parameter some drivers iterate over
}

#define HIT(name) do { static ::mon::Counter mon_c_{name}; mon_c_.n.fetch_add(1, std::memory_order_relaxed); } while(0)
#define HITN(name, k) do { static ::mon::Counter mon_c_{name}; mon_c_.n.fetch_add((k), std::memory_order_relaxed); } while(0)
#define OP(...) do { ::mon::stop(); ::mon::n_ops.fetch_add(1, std::memory_order_relaxed); ::mon::note(__VA_ARGS__); } while(0)
#define CHECK(p, key, cond, ...) do { ::mon::n_checks.fetch_add(1, std::memory_order_relaxed); if(!(cond) && !::mon::poisoned) ::mon::violate(p, key, __VA_ARGS__); } while(0)
#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define SCENARIO(name, props, fn, weight) static ::mon::Scenario MON_CAT(mon_s_, __COUNTER__){name, props, fn, weight}
#define REQUIRE(p, name) static ::mon::Require MON_CAT(mon_r_, __COUNTER__){p, name}
