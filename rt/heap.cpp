#include "heap.hpp"
#include <cerrno>
#include <cstdlib>
#include <new>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p, n) ((void)0)
#endif

extern "C" {
	void * __real_malloc(std::size_t);
	void * __real_calloc(std::size_t, std::size_t);
	void * __real_realloc(void *, std::size_t);
	void __real_free(void *);
	void * __real_aligned_alloc(std::size_t, std::size_t);
	int __real_posix_memalign(void **, std::size_t, std::size_t);
}

namespace mon::heap {
	int sut{0}, fill{-1};
	long fail_in{-1}, tracked_frees{0};
	bool fail_all{false}, fired{false};
	std::uint64_t allocs{0}, frees{0}, refused{0};
	std::size_t live_blocks{0}, live_bytes{0}, limit{std::size_t{1} << 28}, biggest{0};

	namespace {
		enum Kind : unsigned char { none, c_alloc, new_one, new_array, new_aligned, new_array_aligned };
		const char * names[]{"?", "malloc/calloc", "operator new", "operator new[]", "aligned operator new", "aligned operator new[]"};
		const char * dnames[]{"?", "free", "operator delete", "operator delete[]", "aligned operator delete", "aligned operator delete[]"};
		struct Entry { void * p; std::size_t n; Kind k; bool tomb; unsigned off; };
		Entry * table{nullptr};
		std::size_t cap{0}, used{0};

		std::size_t slot(const void * p) { return mix(reinterpret_cast<std::uintptr_t>(p)) & (cap - 1); }
		void put(Entry e) {
			auto i{slot(e.p)};
			while(table[i].p) i = (i + 1) & (cap - 1);
			table[i] = e; ++used;
		}
		void grow() {
			const auto old{table}; const auto n{cap};
			cap = n ? n * 2 : 4096; used = 0;
			table = static_cast<Entry *>(__real_calloc(cap, sizeof(Entry)));
			if(!table) harness_error("ledger out of memory");
			for(std::size_t i{0}; i < n; ++i) if(old[i].p && !old[i].tomb) put(old[i]);
			__real_free(old);
		}
		Entry * find(const void * p) {
			if(!cap) return nullptr;
			for(auto i{slot(p)}; table[i].p; i = (i + 1) & (cap - 1)) if(table[i].p == p && !table[i].tomb) return &table[i];
			return nullptr;
		}

		bool admit(std::size_t n) { // one allocation request by code under test
			++allocs;
			if(n > biggest) biggest = n;
			if(n > limit) { ++refused; return false; }
			if(fail_all) { fired = true; ++refused; return false; }
			if(fail_in >= 0 && fail_in-- == 0) { fired = true; ++refused; return false; }
			return true;
		}
		// Memory for code under test is aligned as promised and never better: a hostile, but correct, allocator.
		void * get(std::size_t n, bool zero, std::size_t al, unsigned & off) {
			off = 0;
			if(!sut || al > 512) {
				if(!al) return zero ? __real_calloc(1, n) : __real_malloc(n);
				void * p{nullptr};
				return __real_posix_memalign(&p, al < sizeof(void *) ? sizeof(void *) : al, n) == 0 ? p : nullptr;
			}
			const auto a{al < alignof(std::max_align_t) ? alignof(std::max_align_t) : al};
			if(n > ~std::size_t{0} - 4 * a) return nullptr;
			void * p{nullptr};
			if(al) { if(__real_posix_memalign(&p, a, n + a) != 0) p = nullptr; }
			else p = zero ? __real_calloc(1, n + a) : __real_malloc(n + a);
			if(!p) return p;
			if(reinterpret_cast<std::uintptr_t>(p) % (2 * a) == 0) { off = static_cast<unsigned>(a); ASAN_POISON_MEMORY_REGION(p, a); }
			else ASAN_POISON_MEMORY_REGION(static_cast<char *>(p) + n, a); // the block ends where it was asked to end
			return static_cast<char *>(p) + off;
		}
		void * record(void * p, std::size_t n, Kind k, bool zeroed, unsigned off = 0) {
			if(!p) return p;
			if(fill >= 0 && !zeroed) std::memset(p, fill, n);
			else if(sut && !zeroed) { static const unsigned char dirt[]{0xBE, 0xFF, 0x01, 0x80}; std::memset(p, dirt[case_index & 3], n < 4096 ? n : 4096); } // new memory is never blank
			if(!sut) return p;
			if((used + 1) * 2 > cap) grow();
			put({p, n, k, false, off});
			++live_blocks; live_bytes += n;
			return p;
		}
		void * forget(void * p, Kind k, std::size_t size = ~std::size_t{0}) { // yields what to give back
			if(!p) return p;
			if(sut) ++frees;
			if(const auto e{find(p)}) {
				++tracked_frees;
				if(e->k != k) violate("C07", "dealloc-mismatch", "block obtained from %s is returned through %s", names[e->k], dnames[k]);
				if(size != ~std::size_t{0} && size != e->n) violate("C07", "dealloc-size", "block of %zu bytes is returned as one of %zu bytes", e->n, size);
				if(fill >= 0) std::memset(p, fill, e->n);
				--live_blocks; live_bytes -= e->n;
				e->tomb = true;
				return static_cast<char *>(p) - e->off;
			}
			return p;
		}
		void * c_get(std::size_t n, bool zero, std::size_t al = 0) {
			if(sut && !admit(n)) { errno = ENOMEM; return nullptr; }
			unsigned off; const auto p{get(n, zero, al, off)};
			return record(p, n, c_alloc, zero, off);
		}
		void * new_get(std::size_t n, Kind k, std::size_t al, bool nothrow) {
			if(sut && !admit(n)) {
				if(nothrow) return nullptr;
				throw std::bad_alloc{};
			}
			unsigned off; const auto p{get(n ? n : 1, false, al, off)};
			if(!p) {
				if(nothrow) return nullptr;
				throw std::bad_alloc{};
			}
			return record(p, n, k, false, off);
		}
		void del(void * p, Kind k, std::size_t n = ~std::size_t{0}) { __real_free(forget(p, k, n)); }
	}

	void reset() {
		for(std::size_t i{0}; i < cap; ++i) table[i] = Entry{};
		used = 0; live_blocks = live_bytes = 0; fail_in = -1; fail_all = false; fired = false; fill = -1;
	}
	bool describe(const void * p, std::size_t & size) {
		if(const auto e{find(p)}) { size = e->n; return true; }
		return false;
	}
}

using namespace mon::heap;
extern "C" {
	void * __wrap_malloc(std::size_t n) { return c_get(n, false); }
	void * __wrap_calloc(std::size_t m, std::size_t n) {
		std::size_t t;
		if(__builtin_mul_overflow(m, n, &t)) { if(sut) { ++allocs; ++refused; } errno = ENOMEM; return nullptr; }
		return c_get(t, true);
	}
	void * __wrap_realloc(void * p, std::size_t n) {
		if(!p) return c_get(n, false);
		const auto e{find(p)};
		if(!e) return __real_realloc(p, n);
		if(sut && !admit(n)) { errno = ENOMEM; return nullptr; }
		unsigned off; const auto q{get(n, false, 0, off)};
		if(!q) return nullptr;
		std::memcpy(q, p, e->n < n ? e->n : n);
		__real_free(forget(p, c_alloc));
		return record(q, n, c_alloc, true, off);
	}
	void __wrap_free(void * p) { __real_free(forget(p, c_alloc)); }
	void * __wrap_aligned_alloc(std::size_t a, std::size_t n) { return c_get(n, false, a); }
	int __wrap_posix_memalign(void ** out, std::size_t a, std::size_t n) {
		void * p{c_get(n, false, a)};
		if(!p) return ENOMEM;
		*out = p;
		return 0;
	}
}

void * operator new(std::size_t n) { return new_get(n, new_one, 0, false); }
void * operator new[](std::size_t n) { return new_get(n, new_array, 0, false); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return new_get(n, new_one, 0, true); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return new_get(n, new_array, 0, true); }
void * operator new(std::size_t n, std::align_val_t a) { return new_get(n, new_aligned, static_cast<std::size_t>(a), false); }
void * operator new[](std::size_t n, std::align_val_t a) { return new_get(n, new_array_aligned, static_cast<std::size_t>(a), false); }
void * operator new(std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_get(n, new_aligned, static_cast<std::size_t>(a), true); }
void * operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return new_get(n, new_array_aligned, static_cast<std::size_t>(a), true); }
void operator delete(void * p) noexcept { del(p, new_one); }
void operator delete[](void * p) noexcept { del(p, new_array); }
void operator delete(void * p, std::size_t n) noexcept { del(p, new_one, n); }
void operator delete[](void * p, std::size_t n) noexcept { del(p, new_array, n); }
void operator delete(void * p, const std::nothrow_t &) noexcept { del(p, new_one); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { del(p, new_array); }
void operator delete(void * p, std::align_val_t) noexcept { del(p, new_aligned); }
void operator delete[](void * p, std::align_val_t) noexcept { del(p, new_array_aligned); }
void operator delete(void * p, std::size_t n, std::align_val_t) noexcept { del(p, new_aligned, n); }
void operator delete[](void * p, std::size_t n, std::align_val_t) noexcept { del(p, new_array_aligned, n); }
