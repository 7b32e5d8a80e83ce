// Element types that register themselves: every construction, copy, move, assignment and destruction is monitored.
#pragma once
#include "heap.hpp"
#include <new>

namespace mon {
	struct Injected { int what; }; // thrown by armed element operations and iterators

	struct Life { // registry of living objects
		static std::size_t live;
		static long throw_in;          // >= 0: the copy/default/value construction that many ahead throws
		static bool fired;
		static std::uint64_t copies, moves, ctors, dtors;
		static constexpr int copied_cap{256};
		static int copied[copied_cap]; // values copied while code under test ran
		static int n_copied;
		static bool misaligned;
		static void born(const void * p, std::size_t size, std::size_t align);
		static void dead(const void * p);
		static bool alive(const void * p) noexcept;
		static void need(const void * p, const char * what);
		static void may_throw(int what);
		static void copied_one(int val);
		static void reset();
	};

	constexpr int moved_from{-1};
	struct TrDefault { static constexpr bool nothrow_ctor{false}; };

	// Tag distinguishes types, Align is the alignment, Pad grows the object
	template<int Tag, std::size_t Align = alignof(int), std::size_t Pad = 0>
	struct alignas(Align) Tr {
		int val;
		unsigned char pad[Pad + 1];

		Tr() : Tr{0, 0} { }
		explicit Tr(int v) : Tr{v, 1} { }
		Tr(const Tr & o) {
			if(mon::heap::sut) Life::copied_one(o.val);
			Life::need(&o, "copy-constructed from");
			Life::may_throw(2);
			val = o.val; std::memcpy(pad, o.pad, sizeof pad); Life::born(this, sizeof(Tr), Align); ++Life::copies;
		}
		Tr(Tr && o) noexcept {
			Life::need(&o, "move-constructed from");
			val = o.val; o.val = moved_from; std::memcpy(pad, o.pad, sizeof pad); Life::born(this, sizeof(Tr), Align); ++Life::moves;
		}
		Tr & operator=(const Tr & o) {
			if(mon::heap::sut) Life::copied_one(o.val);
			Life::need(this, "assigned to"); Life::need(&o, "assigned from");
			Life::may_throw(3);
			val = o.val; ++Life::copies;
			return *this;
		}
		Tr & operator=(Tr && o) noexcept {
			Life::need(this, "assigned to"); Life::need(&o, "assigned from");
			const int v{o.val}; o.val = moved_from; val = this == &o ? moved_from : v; ++Life::moves;
			return *this;
		}
		~Tr() noexcept { Life::dead(this); val = -2; std::memset(pad, 0xEE, sizeof pad); }

		int get() const { Life::need(this, "read"); return val; }
		friend bool operator==(const Tr & a, const Tr & b) noexcept { return a.get() == b.get(); }
		friend bool operator!=(const Tr & a, const Tr & b) noexcept { return a.get() != b.get(); }
		friend bool operator< (const Tr & a, const Tr & b) noexcept { return a.get() <  b.get(); }
		friend bool operator<=(const Tr & a, const Tr & b) noexcept { return a.get() <= b.get(); }
		friend bool operator> (const Tr & a, const Tr & b) noexcept { return a.get() >  b.get(); }
		friend bool operator>=(const Tr & a, const Tr & b) noexcept { return a.get() >= b.get(); }
	private:
		Tr(int v, int what) : val{v} { Life::may_throw(what); std::memset(pad, 0x5A, sizeof pad); Life::born(this, sizeof(Tr), Align); ++Life::ctors; }
	};
}
