// A module's own heap: everything it allocates or frees is reported to the host under the module's number.
#include <cstdlib>
#include <new>
#include "modapi.hpp"
namespace {
	world::HostFns host; int me{-1};
}
extern "C" {
	void * __wrap_malloc(std::size_t n) { return host.alloc(me, world::k_malloc, n, 16, false); }
	void * __wrap_calloc(std::size_t a, std::size_t b) { std::size_t n; if(__builtin_mul_overflow(a, b, &n)) return nullptr; return host.alloc(me, world::k_malloc, n, 16, true); }
	void __wrap_free(void * p) { if(p) host.free(me, world::k_malloc, p); }
	void * __wrap_realloc(void * p, std::size_t n) { void * q{host.alloc(me, world::k_malloc, n, 16, false)}; if(p) { const auto k{host.usable(p)}; std::memcpy(q, p, k < n ? k : n); host.free(me, world::k_malloc, p); } return q; }
	void * __wrap_aligned_alloc(std::size_t a, std::size_t n) { return host.alloc(me, world::k_malloc, n, a, false); }
	int __wrap_posix_memalign(void ** p, std::size_t a, std::size_t n) { *p = host.alloc(me, world::k_malloc, n, a, false); return 0; }
}
void * operator new(std::size_t n) { return host.alloc(me, world::k_new, n, 16, false); }
void * operator new[](std::size_t n) { return host.alloc(me, world::k_array, n, 16, false); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return host.alloc(me, world::k_new, n, 16, false); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return host.alloc(me, world::k_array, n, 16, false); }
void * operator new(std::size_t n, std::align_val_t a) { return host.alloc(me, world::k_aligned_new, n, static_cast<std::size_t>(a), false); }
void operator delete(void * p) noexcept { if(p) host.free(me, world::k_new, p); }
void operator delete[](void * p) noexcept { if(p) host.free(me, world::k_array, p); }
void operator delete(void * p, std::size_t) noexcept { if(p) host.free(me, world::k_new, p); }
void operator delete[](void * p, std::size_t) noexcept { if(p) host.free(me, world::k_array, p); }
void operator delete(void * p, std::align_val_t) noexcept { if(p) host.free(me, world::k_aligned_new, p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { if(p) host.free(me, world::k_aligned_new, p); }

namespace world { extern Ops part0[], part1[], part2[]; extern const std::size_t n0, n1, n2; }
static world::Ops all[64];
extern "C" __attribute__((visibility("default"))) const world::ModApi * mod_api() {
	using namespace world;
	static ModApi api;
	std::size_t n{0};
	for(std::size_t i{0}; i < n0; ++i) all[n++] = part0[i];
	for(std::size_t i{0}; i < n1; ++i) all[n++] = part1[i];
	for(std::size_t i{0}; i < n2; ++i) all[n++] = part2[i];
	api.ops = all; api.n_ops = n;
	api.init = [](const HostFns * h, int m, const Ctx * c) { host = *h; me = m; ctx = *c; };
	#ifdef __clang__
	api.build = "clang++ " __VERSION__;
	#else
	api.build = "g++ " __VERSION__;
	#endif
	return &api;
}
