// Iterators of every category over harness data; dereferencing may throw an injected exception while code under test runs.
#pragma once
#include "tracked.hpp"
#include <iterator>
#include <memory>

namespace mon {
	template<typename T>
	struct InIt { // strictly single pass
		using iterator_category = std::input_iterator_tag;
		using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		struct Shared { const T * base; std::size_t pos; };
		Shared * sh; std::size_t idx;
		void fresh() const { if(idx != sh->pos && !poisoned) violate(prop, "input-multipass", "an input iterator is used after another copy of it was advanced"); }
		reference operator*() const { fresh(); Life::may_throw(10); return sh->base[idx]; }
		pointer operator->() const { return &**this; }
		InIt & operator++() { fresh(); Life::may_throw(11); ++idx; sh->pos = idx; return *this; }
		struct Proxy { T v; const T & operator*() const { return v; } };
		Proxy operator++(int) { Proxy p{**this}; ++*this; return p; }
		friend bool operator==(const InIt & a, const InIt & b) { return a.idx == b.idx; }
		friend bool operator!=(const InIt & a, const InIt & b) { return a.idx != b.idx; }
	};
	template<typename T>
	struct PickIt { // forward; visits elements of base in the order of an index list (repetitions allowed)
		using iterator_category = std::forward_iterator_tag;
		using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		const T * base{nullptr}; const std::size_t * idx{nullptr};
		reference operator*() const { Life::may_throw(15); return base[*idx]; }
		pointer operator->() const { return base + *idx; }
		PickIt & operator++() { ++idx; return *this; }
		PickIt operator++(int) { auto t{*this}; ++*this; return t; }
		friend bool operator==(const PickIt & a, const PickIt & b) { return a.idx == b.idx; }
		friend bool operator!=(const PickIt & a, const PickIt & b) { return a.idx != b.idx; }
	};
	// libstdc++'s uninitialized_copy leaks an element if an increment throws, so increments only throw where no elements are constructed
	inline bool inc_may_throw{false};
	template<typename T, typename Cat>
	struct FwIt {
		using iterator_category = Cat;
		using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		const T * p{nullptr};
		reference operator*() const { Life::may_throw(12); return *p; }
		pointer operator->() const { return p; }
		FwIt & operator++() { if(inc_may_throw) Life::may_throw(13); ++p; return *this; }
		FwIt operator++(int) { auto t{*this}; ++*this; return t; }
		FwIt & operator--() { --p; return *this; }
		FwIt operator--(int) { auto t{*this}; --*this; return t; }
		FwIt & operator+=(difference_type n) { p += n; return *this; }
		FwIt & operator-=(difference_type n) { p -= n; return *this; }
		friend FwIt operator+(FwIt a, difference_type n) { return a += n; }
		friend FwIt operator+(difference_type n, FwIt a) { return a += n; }
		friend FwIt operator-(FwIt a, difference_type n) { return a -= n; }
		friend difference_type operator-(FwIt a, FwIt b) { return a.p - b.p; }
		reference operator[](difference_type n) const { Life::may_throw(14); return p[n]; }
		friend bool operator==(const FwIt & a, const FwIt & b) { return a.p == b.p; }
		friend bool operator!=(const FwIt & a, const FwIt & b) { return a.p != b.p; }
		friend bool operator< (const FwIt & a, const FwIt & b) { return a.p <  b.p; }
		friend bool operator> (const FwIt & a, const FwIt & b) { return a.p >  b.p; }
		friend bool operator<=(const FwIt & a, const FwIt & b) { return a.p <= b.p; }
		friend bool operator>=(const FwIt & a, const FwIt & b) { return a.p >= b.p; }
	};
}
