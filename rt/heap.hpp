// Allocation ledger: every allocation made while code under test runs, with fault injection and fill patterns.
#pragma once
#include "mon.hpp"

namespace mon::heap {
	extern int sut;                  // > 0 while code under test runs
	extern long fail_in;             // >= 0: the allocation that many allocations ahead fails
	extern bool fail_all;            // every allocation fails
	extern bool fired;               // an injected failure happened
	extern std::uint64_t allocs, frees, refused; // by code under test
	extern std::size_t live_blocks, live_bytes;
	extern std::size_t limit;        // bigger requests are refused (as any real allocator would)
	extern std::size_t biggest;      // biggest request seen
	extern int fill;                 // >= 0: byte pattern for new and freed memory
	extern long tracked_frees;       // frees of tracked blocks (inside or outside of code under test)
	void reset();
	struct Sut { Sut() noexcept { ++sut; } ~Sut() noexcept { --sut; } Sut(const Sut &) =delete; };
	struct Out { int old; Out() noexcept : old{sut} { sut = 0; } ~Out() noexcept { sut = old; } Out(const Out &) =delete; }; // harness code called back from code under test
	bool describe(const void * p, std::size_t & size); // is p the start of a live tracked block?
}
#define SUT(...) ([&]() -> decltype(auto) { ::mon::heap::Sut mon_sut_; return __VA_ARGS__; }())
