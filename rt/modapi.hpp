// Interface between the host of the binary-boundary monitors and the separately compiled modules.
#pragma once
#include "world.hpp"
namespace world {
	enum Kind { k_malloc, k_new, k_array, k_aligned_new, k_hand };
	struct HostFns { void * (*alloc)(int mod, int kind, std::size_t n, std::size_t align, bool zero); void (*free)(int mod, int kind, void * p); std::size_t (*usable)(void * p); };
	struct ModApi { const Ops * ops; std::size_t n_ops; void (*init)(const HostFns *, int mod, const Ctx *); const char * build; };
	// every type that crosses the boundary
	#define WORLD_TYPES(X) \
		X(0, S) X(0, Vec<I>) X(0, Vec<C>) X(0, Vec<S>) X(0, Opt<S>) X(0, Opt<L>) X(0, Bit<37>) X(0, Bit<64>) X(0, Bit<0>) X(0, SRef) X(0, ARef) X(0, ORef) X(0, VRef) X(0, FRef) \
		X(1, Var<I, S, Vec<I>>) X(1, Arr<S, 3>) X(1, Arr<I, 5>) X(1, Tup<C, S, I>) X(1, Var<C, Bit<9>, L>) X(1, Vec<Opt<S>>) X(1, Opt<Vec<S>>) X(1, Vec<Vec<I>>) \
		X(2, Vec<Var<S, I>>) X(2, Tup<Opt<I>, Vec<S>, Bit<17>, L>) X(2, Var<Arr<S, 2>, Opt<Vec<I>>, S>) X(2, Arr<Vec<C>, 2>) X(2, Opt<Var<S, Vec<S>>>)
}
