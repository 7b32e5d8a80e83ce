// Iterator laws: every position and pair of positions of every container, against index arithmetic over the element addresses.
#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <string>
#include <type_traits>
#include <vector>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include "../rt/routes.hpp"

namespace {
	using namespace mon;
	template<typename T> struct Box { T x; Box() = default; Box(T v) : x{v} {} operator T() const { return x; } };
	struct Pod { int k{0}; short pad{0}; char c{0}; friend bool operator==(const Pod & a, const Pod & b) { return a.k == b.k; } friend bool operator<(const Pod & a, const Pod & b) { return a.k < b.k; } };
	struct Wide { char a[40]{}; int k{0}; friend bool operator==(const Wide & a, const Wide & b) { return a.k == b.k; } friend bool operator<(const Wide & a, const Wide & b) { return a.k < b.k; } };
	template<typename T> T make(int v) { if constexpr(std::is_same_v<T, std::string>) return "long enough for the heap " + std::to_string(10000 + v); else if constexpr(std::is_same_v<T, Pod>) { Pod p; p.k = v; return p; } else if constexpr(std::is_same_v<T, Wide>) { Wide w; w.k = v; return w; } else return static_cast<T>(v); }
	template<typename T> const void * adr(const T & t) { return std::addressof(t); }
	template<typename T> int member(const T *) { return 0; }
	#define LAW(key, cond, what) CHECK("C20", key, cond, "%s: " what " at positions %td and %td of %td", kind, i, j, n)

	// it(k) is an iterator to position k of n elements, at(k) the address of that element
	template<typename It, typename Con, typename At> void laws(const char * kind, It b, It e, std::ptrdiff_t n, At && at, Con cb) {
		using Tr = std::iterator_traits<It>;
		static_assert(std::is_same_v<typename Tr::iterator_category, std::random_access_iterator_tag> || std::is_base_of_v<std::random_access_iterator_tag, typename Tr::iterator_category>);
		static_assert(std::is_convertible_v<It, Con> && std::is_default_constructible_v<It> && std::is_copy_assignable_v<It> && std::is_same_v<decltype(*b), typename Tr::reference>);
		CHECK("C20", "distance", SUT(e - b) == n && SUT(b - e) == -n && SUT(std::distance(b, e)) == n && SUT(b + n) == e && SUT(e - n) == b, "%s: the distance from begin to end is %td, expected %td", kind, e - b, n);
		if(poisoned) return;
		const auto far{n > 24}; // check all pairs of small sequences and a sample of pairs of large ones
		Rng r{static_cast<std::uint64_t>(n) + case_index};
		for(std::ptrdiff_t i{0}; i <= n && !poisoned; ++i) {
			if(far && i > 3 && i < n - 3 && !r.chance(1, 4)) continue;
			It x{SUT(b + i)}; std::ptrdiff_t j{i};
			{ It y{SUT(i + b)}; It z{b}; It & zr{SUT(z += i)}; It w{e}; It & wr{SUT(w -= n - i)}; const It v{SUT(e - (n - i))}; LAW("offset", y == x && z == x && &zr == &z && w == x && &wr == &w && v == x && x - b == i && e - x == n - i, "begin + n, n + begin, += or -= disagrees"); }
			if(i < n) {
				LAW("dereference", adr(*x) == at(i) && adr(*x.operator->()) == at(i) && adr(b[i]) == at(i) && adr(x[0]) == at(i), "dereferencing yields another element");
				{ It y{x}; It & yr{SUT(++y)}; It z{x}; const It old{SUT(z++)}; LAW("increment", &yr == &y && y - b == i + 1 && z == y && old == x && x - b == i, "++ yields another position"); }
			}
			if(i > 0) { It y{x}; It & yr{SUT(--y)}; It z{x}; const It old{SUT(z--)}; LAW("decrement", &yr == &y && y - b == i - 1 && z == y && old == x && adr(*y) == at(i - 1) && adr(x[-1]) == at(i - 1), "-- yields another position"); }
			const Con cx{x}; Con cy; cy = x; LAW("to-const", cx - cb == i && cy == cx && cx == x && x == cx && !(cx != x) && cx <= x && x <= cx && !(x < cx) && !(cx < x) && cx - x == 0, "the conversion to a const iterator changes the position"); if(i < n) LAW("to-const", adr(*cx) == at(i), "the const iterator designates another element");
			for(j = 0; j <= n && !poisoned; ++j) {
				if(far && j > 2 && j < n - 2 && j != i && j != i + 1 && !r.chance(1, 5)) continue;
				const It y{b + j};
				LAW("difference", SUT(y - x) == j - i && SUT(x - y) == i - j, "the difference is wrong");
				LAW("compare", SUT(x == y) == (i == j) && SUT(x != y) == (i != j) && SUT(x < y) == (i < j) && SUT(x > y) == (i > j) && SUT(x <= y) == (i <= j) && SUT(x >= y) == (i >= j), "a comparison disagrees with the order of positions");
				{ It z{x}; z += j - i; It w{x}; w -= i - j; LAW("jump", z == y && w == y && x + (j - i) == y && x - (i - j) == y && (j - i) + x == y, "moving by the difference does not yield the position"); }
				if(j < n) LAW("subscript", adr(SUT(x[j - i])) == at(j), "[] yields another element");
				const Con cz{y}; LAW("mixed", cz - cx == j - i && (cx < cz) == (i < j), "const iterators disagree");
				HIT("pairs of positions");
			}
		}
		if(n > 0) { It x{e}; It y{b}; std::swap(x, y); CHECK("C20", "swap", x == b && y == e, "%s: swapping iterators", kind); It z{b}; z = z; CHECK("C20", "self-assign", z == b, "%s: self-assignment of an iterator", kind); }
		std::ptrdiff_t k{0}; for(It x{b}; x != e && !poisoned; ++x, ++k) CHECK("C20", "walk", k < n && adr(*x) == at(k), "%s: walking visits another element at %td of %td", kind, k, n);
		CHECK("C20", "walk", k == n, "%s: walking visits %td of %td elements", kind, k, n);
		std::ptrdiff_t m{n}; for(It x{e}; x != b && !poisoned;) { --x; --m; CHECK("C20", "walk-back", m >= 0 && adr(*x) == at(m), "%s: walking back visits another element at %td of %td", kind, m, n); }
	}
	template<typename C> void all(const char * name, C & c, std::ptrdiff_t n, const void * first, std::size_t step) {
		auto fwd{[&](std::ptrdiff_t k) { return static_cast<const void *>(static_cast<const char *>(first) + k * static_cast<std::ptrdiff_t>(step)); }};
		auto rev{[&](std::ptrdiff_t k) { return fwd(n - 1 - k); }};
		const C & cc{c};
		CHECK("C20", "size", static_cast<std::ptrdiff_t>(c.size()) == n && (n == 0 || adr(*c.begin()) == first), "%s: size or first element is wrong", name);
		if(poisoned) return;
		heap::Sut sut; const auto a0{heap::allocs};
		laws<decltype(c.begin()), decltype(c.cbegin())>(name, c.begin(), c.end(), n, fwd, c.cbegin());
		laws<decltype(cc.begin()), decltype(cc.cbegin())>(name, cc.begin(), cc.end(), n, fwd, cc.cbegin());
		laws<decltype(c.rbegin()), decltype(c.crbegin())>(name, c.rbegin(), c.rend(), n, rev, c.crbegin());
		laws<decltype(cc.rbegin()), decltype(cc.crbegin())>(name, cc.rbegin(), cc.rend(), n, rev, cc.crbegin());
		CHECK("C20", "allocates", heap::allocs == a0, "%s: iterating allocates", name);
		CHECK("C20", "const-begin", c.cbegin() == cc.begin() && c.cend() == cc.end() && cc.cbegin() == c.begin() && c.crbegin() == cc.rbegin() && c.crend() == cc.rend() && cc.end() - cc.begin() == n, "%s: const and mutable iterators disagree", name);
		Hash h; h.add(name, std::strlen(name)); h.add(static_cast<std::uint64_t>(n)); h.add(step); state(h.h);
	}
	template<typename It> bool is_sorted_by(It b, It e) { for(auto p{b}; b != e; p = b, ++b) if(*b < *p) return false; return true; }
	// standard algorithms on c give what they give on the same values in a plain array
	template<typename C, typename T> void algorithms(Rng & r, const char * name, C & c, std::vector<T> m) {
		auto same{[&](const char * op) { CHECK("C20", "algorithm", c.size() == m.size() && std::equal(m.begin(), m.end(), c.begin()), "%s: std::%s through the iterators gives another result", name, op); }};
		const auto n{m.size()}; const auto seed{r.next()}; const auto k{n ? r.below(n + 1) : 0}, l{n ? r.range(k, n) : 0}; const auto ik{static_cast<std::ptrdiff_t>(k)}, il{static_cast<std::ptrdiff_t>(l)};
		const char * op{"?"}; const bool rev{r.chance(1, 4)};
		#define BOTH(...) do { { auto b{c.begin()}; auto e{c.end()}; auto at{[&](std::ptrdiff_t q) { return b + q; }}; (void)at; (void)e; __VA_ARGS__; } { auto b{m.begin()}; auto e{m.end()}; auto at{[&](std::ptrdiff_t q) { return b + q; }}; (void)at; (void)e; __VA_ARGS__; } } while(0)
		#define RBOTH(...) do { { auto b{c.rbegin()}; auto e{c.rend()}; __VA_ARGS__; } { auto b{m.rbegin()}; auto e{m.rend()}; __VA_ARGS__; } } while(0)
		std::ptrdiff_t res[2]{}; int w{0};
		const auto which{r.below(16)};
		switch(which) {
			case 0: op = "sort"; OP("%s of %zu", op, n); if(rev) RBOTH(std::sort(b, e)); else BOTH(std::sort(b, e)); break;
			case 1: op = "stable_sort"; OP("%s", op); BOTH(std::stable_sort(b, e)); break;
			case 2: op = "reverse"; OP("%s", op); BOTH(std::reverse(at(ik), at(il))); break;
			case 3: op = "rotate"; OP("%s", op); if(rev && n) RBOTH(std::rotate(b, b + ik, e)); else BOTH(std::rotate(b, at(ik), e)); break;
			case 4: op = "copy"; OP("%s", op); if(n) BOTH(std::copy(at(il), e, at(ik))); break;
			case 5: op = "copy_backward"; OP("%s", op); if(n) BOTH(std::copy_backward(b, at(ik), at(il))); break;
			case 6: op = "shuffle"; OP("%s", op); BOTH(Rng q{seed}; for(auto s{e - b}; s > 1; --s) std::iter_swap(at(s - 1), at(static_cast<std::ptrdiff_t>(q.below(static_cast<std::size_t>(s)))))); break;
			case 7: op = "nth_element and partial_sort"; OP("%s", op); BOTH(std::partial_sort(b, at(ik), e); std::sort(at(ik), e)); break;
			case 8: op = "make_heap and sort_heap"; OP("%s", op); BOTH(std::make_heap(b, e); std::sort_heap(b, e)); break;
			case 9: op = "remove"; OP("%s", op); if(n) { const T v{m[k % n]}; BOTH(res[w++] = std::stable_partition(b, e, [&](const T & x) { return !(x == v); }) - b); CHECK("C20", "algorithm", res[0] == res[1], "%s: std::stable_partition through the iterators returns %td, expected %td", name, res[0], res[1]); } break;
			case 10: op = "lower_bound"; OP("%s", op); if(n) { const T v{m[k % n]}; BOTH(std::sort(b, e); res[w++] = std::lower_bound(b, e, v) - b); w = 0; CHECK("C20", "algorithm", res[0] == res[1], "%s: std::lower_bound through the iterators returns %td, expected %td", name, res[0], res[1]); BOTH(res[w++] = std::upper_bound(b, e, v) - b); CHECK("C20", "algorithm", res[0] == res[1], "%s: std::upper_bound through the iterators returns %td, expected %td", name, res[0], res[1]); } break;
			case 11: op = "find"; OP("%s", op); if(n) { const T v{m[k % n]}; BOTH(res[w++] = std::find(b, e, v) - b + 1000 * std::count(b, e, v)); CHECK("C20", "algorithm", res[0] == res[1], "%s: std::find or std::count through the iterators differs", name); } break;
			case 12: op = "swap_ranges"; OP("%s", op); if(n) { const auto h{static_cast<std::ptrdiff_t>(n / 2)}; BOTH(std::swap_ranges(b, at(h), at(h))); } break;
			case 13: op = "inplace_merge"; OP("%s", op); BOTH(std::sort(b, at(ik)); std::sort(at(ik), e); std::inplace_merge(b, at(ik), e)); break;
			case 14: op = "next_permutation"; OP("%s", op); BOTH(for(int q{0}; q < 5; ++q) std::next_permutation(b, e)); break;
			default: op = "fill and assignment through iterators"; OP("%s", op); if(n) { const T v{m[k % n]}, v0{m[0]}, v1{m[n / 2]}; BOTH(std::fill(at(ik), at(il), v)); if(k < n) BOTH(b[ik] = v0; *(e - 1) = v1); }
		}
		same(op); HIT("algorithms compared");
		{ std::vector<T> copy(c.begin(), c.end()); std::vector<T> back(c.rbegin(), c.rend()); std::reverse(back.begin(), back.end()); CHECK("C20", "range-copy", copy == m && back == m, "%s: copying through the iterators gives other values", name); }
		std::size_t cnt{0}; for(const auto & x : std::as_const(c)) { CHECK("C20", "range-for", cnt < n && x == m[cnt], "%s: a range for loop visits other elements", name); ++cnt; } CHECK("C20", "range-for", cnt == n, "%s: a range for loop visits %zu of %zu elements", name, cnt, n);
		Hash h; h.add(name, std::strlen(name)); h.add(which); h.add(n); h.add(k); h.add(l); state(h.h);
	}
	std::size_t length(Rng & r) { switch(r.below(8)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 40 + r.below(30); default: return r.range(3, 14); } }
	template<typename T> void vectors(Rng & r, const char * name) {
		const auto n{length(r)}; const int vals{static_cast<int>(r.range(1, 100))};
		std::vector<T> m; for(std::size_t i{0}; i < n; ++i) m.push_back(make<T>(static_cast<int>(r.below(static_cast<std::size_t>(vals)))));
		auto v{route_vector<T>(r, n, [&](std::size_t i) { return m[i]; })};
		OP("%s of %zu", name, n);
		all(name, v, static_cast<std::ptrdiff_t>(n), v.data(), sizeof(T));
		if(!poisoned) algorithms(r, name, v, m);
		ptl::array_ref<T> w{v.data(), n}; std::vector<T> m2(v.begin(), v.end());
		if(!poisoned) all("array_ref", w, static_cast<std::ptrdiff_t>(n), v.data(), sizeof(T));
		if(!poisoned) algorithms(r, "array_ref", w, m2);
		ptl::array_ref<const T> cw{w}; if(!poisoned) all("array_ref of const", cw, static_cast<std::ptrdiff_t>(n), v.data(), sizeof(T));
		HIT("vectors iterated");
	}
#if PART == 0
	void vec_int(Rng & r) { vectors<int>(r, "vector<int>"); }
#endif
#if PART == 1
	void vec_char(Rng & r) { vectors<char>(r, "vector<char>"); }
#endif
#if PART == 2
	void vec_string(Rng & r) { vectors<std::string>(r, "vector<std::string>"); }
#endif
#if PART == 3
	void vec_wide(Rng & r) { vectors<Wide>(r, "vector<Wide>"); }
#endif
	template<typename T, std::size_t N> void arrays(Rng & r, const char * name) {
		ptl::array<T, N> a; std::vector<T> m; for(std::size_t i{0}; i < N; ++i) { m.push_back(make<T>(static_cast<int>(r.below(20)))); a[i] = m[i]; }
		OP("%s", name);
		all(name, a, static_cast<std::ptrdiff_t>(N), N ? static_cast<const void *>(a.data()) : nullptr, sizeof(T));
		if(!poisoned) algorithms(r, name, a, m);
		HIT("arrays iterated");
	}
#if PART == 4 || PART == 5
#if PART == 4
	void arr(Rng & r) { switch(r.below(4)) { case 0: arrays<int, 0>(r, "array<int, 0>"); break; case 1: arrays<int, 1>(r, "array<int, 1>"); break; case 2: arrays<int, 9>(r, "array<int, 9>"); break; default: arrays<char, 33>(r, "array<char, 33>"); } }
#else
	void arr(Rng & r) { switch(r.below(3)) { case 0: arrays<std::string, 5>(r, "array<string, 5>"); break; case 1: arrays<Pod, 2>(r, "array<Pod, 2>"); break; default: arrays<Wide, 4>(r, "array<Wide, 4>"); } }
#endif
#endif
#if PART == 6
	void strings(Rng & r) {
		const auto n{r.chance(1, 2) ? length(r) : r.range(20, 26)}; std::string v; for(std::size_t i{0}; i < n; ++i) v.push_back(static_cast<char>(r.below(256)));
		auto s{route_string(r, v)};
		OP("string of %zu", n);
		all("string", s, static_cast<std::ptrdiff_t>(n), s.data(), 1);
		if(!poisoned) algorithms(r, "string", s, std::vector<char>(v.begin(), v.end()));
		HIT("strings iterated");
	}
	void string_refs(Rng & r) {
		const auto n{length(r)}; std::string v; for(std::size_t i{0}; i < n; ++i) v.push_back(static_cast<char>(r.below(256)));
		ptl::string_ref s{v.data(), n};
		OP("string_ref of %zu", n);
		all("string_ref", s, static_cast<std::ptrdiff_t>(n), v.data(), 1);
		std::string c(s.begin(), s.end()), b(s.rbegin(), s.rend()); std::reverse(b.begin(), b.end());
		CHECK("C20", "range-copy", c == v && b == v, "string_ref: copying through the iterators gives other characters");
		if(n) { const char x{v[r.below(n)]}; CHECK("C20", "algorithm", std::find(s.begin(), s.end(), x) - s.begin() == static_cast<std::ptrdiff_t>(v.find(x)) && std::find(s.rbegin(), s.rend(), x).base() - s.begin() - 1 == static_cast<std::ptrdiff_t>(v.rfind(x)) && std::count(s.begin(), s.end(), x) == std::count(v.begin(), v.end(), x), "string_ref: std::find or std::count through the iterators differs"); }
		HIT("string_refs iterated");
	}
#endif
}
#if PART == 0
SCENARIO("iterators of vector<int> and array_ref", "C20", vec_int, 3);
#endif
#if PART == 1
SCENARIO("iterators of vector<char> and array_ref", "C20", vec_char, 1);
#endif
#if PART == 2
SCENARIO("iterators of vector<string> and array_ref", "C20", vec_string, 2);
#endif
#if PART == 3
SCENARIO("iterators of vector<Wide> and array_ref", "C20", vec_wide, 2);
#endif
#if PART == 4
SCENARIO("iterators of array", "C20", arr, 2);
#elif PART == 5
SCENARIO("iterators of array of classes", "C20", arr, 2);
#endif
#if PART == 6
SCENARIO("iterators of string", "C20", strings, 3);
#endif
#if PART == 6
SCENARIO("iterators of string_ref", "C20", string_refs, 2);
#endif
REQUIRE("C20", "pairs of positions"); REQUIRE("C20", "algorithms compared"); REQUIRE("C20", "vectors iterated"); REQUIRE("C20", "arrays iterated"); REQUIRE("C20", "strings iterated"); REQUIRE("C20", "string_refs iterated");
