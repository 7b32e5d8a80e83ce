// One third (PART) of a module: the operations of some types, compiled from the library's headers.
#include "../rt/modapi.hpp"
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace world {
	#define X(p, ...) (p == PART ? 1 : 0) +
	constexpr std::size_t count{WORLD_TYPES(X) 0};
	#undef X
	extern Ops CAT(part, PART)[]; extern const std::size_t CAT(n, PART);
	const std::size_t CAT(n, PART){count};
	Ops CAT(part, PART)[count];
	template<int Q, typename D> static void add(std::size_t & i, const char * name) { if constexpr(Q == PART) CAT(part, PART)[i++] = ops<P, D>(name); }
	static const bool filled{[] { std::size_t i{0};
		#define X(p, ...) add<p, __VA_ARGS__>(i, #__VA_ARGS__);
		WORLD_TYPES(X)
		#undef X
		return i == count; }()};
}
