// Requests for impossible sizes: every count-taking operation of vector and string with counts at every overflow boundary.
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <string>
#include <vector>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#include "../rt/iters.hpp"

namespace {
	using namespace mon;
	constexpr std::size_t limit{std::size_t{1} << 20};
	template<typename T>
	struct Count { // a range of any length repeating one element
		using iterator_category = std::random_access_iterator_tag;
		using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		const T * p{nullptr}; std::uint64_t i{0};
		static inline std::uint64_t reads{0};
		reference operator*() const { ++reads; return *p; }
		pointer operator->() const { return p; }
		Count & operator++() { ++i; return *this; } Count operator++(int) { auto t{*this}; ++i; return t; }
		Count & operator--() { --i; return *this; } Count operator--(int) { auto t{*this}; --i; return t; }
		Count & operator+=(difference_type n) { i += static_cast<std::uint64_t>(n); return *this; } Count & operator-=(difference_type n) { i -= static_cast<std::uint64_t>(n); return *this; }
		friend Count operator+(Count a, difference_type n) { return a += n; } friend Count operator+(difference_type n, Count a) { return a += n; } friend Count operator-(Count a, difference_type n) { return a -= n; }
		friend difference_type operator-(Count a, Count b) { return static_cast<difference_type>(a.i - b.i); }
		reference operator[](difference_type) const { ++reads; return *p; }
		friend bool operator==(Count a, Count b) { return a.i == b.i; } friend bool operator!=(Count a, Count b) { return a.i != b.i; } friend bool operator<(Count a, Count b) { return a.i < b.i; } friend bool operator>(Count a, Count b) { return a.i > b.i; } friend bool operator<=(Count a, Count b) { return a.i <= b.i; } friend bool operator>=(Count a, Count b) { return a.i >= b.i; }
	};
	template<typename T>
	struct Endless { // input range without an end
		using iterator_category = std::input_iterator_tag;
		using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T *; using reference = const T &;
		const T * p; bool end;
		reference operator*() const { return *p; }
		Endless & operator++() { return *this; } Endless operator++(int) { return *this; }
		friend bool operator==(Endless a, Endless b) { return a.end == b.end; } friend bool operator!=(Endless a, Endless b) { return a.end != b.end; }
	};
	template<int N, int A = 8> struct alignas(A) Blob { int v; char rest[N]; Blob(int v = 0) : v{v} { std::memset(rest, v, sizeof rest); } friend bool operator==(const Blob & a, const Blob & b) { return a.v == b.v; } operator int() const { return v; } };

	// a count that cannot be satisfied for an object of n elements of the given size
	std::size_t impossible(Rng & r, std::size_t size, std::size_t n) {
		constexpr auto M{std::numeric_limits<std::size_t>::max()};
		constexpr auto D{static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max())};
		const std::size_t base[]{M, D, M / size, D / size, M / size / 2, M / 2 / size * 3, M - n, D - n, D / size - n, M / size - n, std::size_t{1} << 63, std::size_t{1} << 62, std::size_t{1} << 61, (std::size_t{1} << 63) / size, M / 3 * 2 / size, M / 3 / size, std::size_t{1} << 32, std::size_t{1} << 40, std::size_t{1} << 31, D - 1, D - 2, M / 24 * 24, M / size + 2, M / size * 2 + 2};
		const auto k{r.below(3) == 0 ? r.below(200) : r.below(8)};
		auto c{base[r.below(sizeof base / sizeof *base)]};
		c = r.chance(1, 2) ? c - k : c + k;
		if(r.chance(1, 12)) c = r.next();
		if(c < 2 * limit + 1000) c = M - c; // a satisfiable request: make it an impossible one
		return c;
	}

	template<typename O, typename F, typename I>
	void refused(const char * op, std::size_t count, O & o, F && f, I && intact) {
		if(poisoned) return;
		OP("%s with count %zu on size %zu capacity %zu", op, count, o.size(), o.capacity());
		int how{0};
		std::string what;
		heap::limit = count ? limit : std::size_t{1} << 15;
		try { f(); }
		catch(const std::length_error &) { how = 1; }
		catch(const std::bad_alloc &) { how = 2; }
		catch(const std::exception & e) { how = 3; what = e.what(); }
		catch(...) { how = 4; }
		heap::limit = ~std::size_t{0};
		CHECK("C05", "accepted", how != 0, "%s accepted count %zu (object of %zu elements now has %zu, capacity %zu)", op, count, o.size(), o.size(), o.capacity());
		CHECK("C05", "exception-type", how <= 2, "%s with count %zu threw neither length_error nor bad_alloc (%s)", op, count, what.c_str());
		if(!poisoned) CHECK("C05", "changed", intact(), "%s with count %zu failed and changed the object (size %zu)", op, count, o.size());
		Hash h; h.add(op, std::strlen(op)); h.add(count); h.add(o.size()); h.add(o.capacity()); h.add(sizeof(o.data()[0])); state(h.h);
		if(how == 1) HIT("length_error"); else if(how == 2) HIT("bad_alloc");
	}

	template<typename T>
	void vectors(Rng & r) {
		using V = ptl::vector<T>;
		const T x(7);
		for(int round{0}; round < 12 && !poisoned; ++round) {
			const auto n{r.below(9)}; const auto spare{r.chance(1, 2) ? r.below(20) : 0};
			V v; v.reserve(n + spare); std::vector<int> m;
			for(std::size_t i{0}; i < n; ++i) { v.push_back(T(static_cast<int>(i + 1))); m.push_back(static_cast<int>(i + 1)); }
			const auto cap{v.capacity()}; const auto data{v.data()};
			const auto intact{[&] { if(v.size() != n || v.capacity() != cap || v.data() != data) return false; for(std::size_t i{0}; i < n; ++i) if(static_cast<int>(v[i]) != m[i]) return false; return true; }};
			const auto c{impossible(r, sizeof(T), n)};
			const auto d{c > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) ? c >> 1 : c}; // lengths of ranges are differences
			const auto at{r.below(n + 1)};
			const Count<T> f{&x, 0}, l{&x, d};
			const auto way{r.below(16)};
			switch(way) {
				case 0: refused("vector(n)", c, v, [&] { SUT(V(c)); }, intact); break;
				case 1: refused("vector(n, value)", c, v, [&] { SUT(V(c, x)); }, intact); break;
				case 2: refused("vector(range)", d, v, [&] { SUT(V(f, l)); }, intact); break;
				case 3: refused("reserve", c, v, [&] { SUT(v.reserve(c)); }, intact); break;
				case 4: refused("resize(n)", c, v, [&] { SUT(v.resize(c)); }, intact); break;
				case 5: refused("resize(n, value)", c, v, [&] { SUT(v.resize(c, x)); }, intact); break;
				case 6: refused("assign(n, value)", c, v, [&] { SUT(v.assign(c, x)); }, intact); break;
				case 7: refused("assign(range)", d, v, [&] { SUT(v.assign(f, l)); }, intact); break;
				case 8: refused("insert(n, value)", c, v, [&] { SUT(v.insert(v.cbegin() + at, c, x)); }, intact); break;
				case 9: refused("insert(range)", d, v, [&] { SUT(v.insert(v.cbegin() + at, f, l)); }, intact); break;
				case 10: refused("insert(n, value) at end", c, v, [&] { SUT(v.insert(v.cend(), c, x)); }, intact); break;
				case 11: if(n) refused("insert(n, own element)", c, v, [&] { SUT(v.insert(v.cbegin() + at, c, v[0])); }, intact); break;
				case 12: if(n) refused("resize(n, own element)", c, v, [&] { SUT(v.resize(c, v[n - 1])); }, intact); break;
				case 13: if(r.chance(1, 8)) refused("insert(endless)", 0, v, [&] { SUT(v.insert(v.cbegin() + at, Endless<T>{&x, false}, Endless<T>{&x, true})); }, intact); break;
				case 14: if(r.chance(1, 8)) refused("assign(endless)", 0, v, [&] { SUT(v.assign(Endless<T>{&x, false}, Endless<T>{&x, true})); }, intact); break;
				default: if(r.chance(1, 8)) refused("vector(endless)", 0, v, [&] { SUT(V(Endless<T>{&x, false}, Endless<T>{&x, true})); }, intact);
			}
			if(poisoned) { new V(std::move(v)); return; }
			v.push_back(x); CHECK("C05", "unusable", v.size() == n + 1 && static_cast<int>(v[n]) == 7, "the vector is unusable after a refused request");
		}
		CHECK("C05", "leak", heap::live_blocks == 0, "refused requests leaked %zu blocks", heap::live_blocks);
	}
	void strings(Rng & r) {
		using S = ptl::string;
		const char x{'x'};
		for(int round{0}; round < 12 && !poisoned; ++round) {
			const auto n{r.chance(1, 2) ? r.below(24) : r.below(80)}; const auto spare{r.chance(1, 2) ? r.below(60) : 0};
			S s; if(spare) s.reserve(n + spare); std::string m;
			for(std::size_t i{0}; i < n; ++i) m += static_cast<char>('a' + i % 26);
			s.append(m.begin(), m.end());
			const auto intact{[&] { return s.size() == n && s.capacity() >= n && std::memcmp(s.data(), m.data(), n) == 0 && s.data()[n] == 0; }};
			const auto c{impossible(r, r.chance(1, 2) ? 1 : 24, n)};
			const auto d{c > static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) ? c >> 1 : c};
			const auto at{r.below(n + 1)}, to{r.range(at, n)};
			const Count<char> f{&x, 0}, l{&x, d};
			const auto way{r.below(18)};
			switch(way) {
				case 0: refused("string(n, char)", c, s, [&] { SUT(S(c, 'x')); }, intact); break;
				case 1: refused("string(range)", d, s, [&] { SUT(S(f, l)); }, intact); break;
				case 2: refused("reserve", c, s, [&] { SUT(s.reserve(c)); }, intact); break;
				case 3: refused("resize(n)", c, s, [&] { SUT(s.resize(c)); }, intact); break;
				case 4: refused("resize(n, char)", c, s, [&] { SUT(s.resize(c, 'y')); }, intact); break;
				case 5: refused("append(n, char)", c, s, [&] { SUT(s.append(c, 'x')); }, intact); break;
				case 6: refused("append(range)", d, s, [&] { SUT(s.append(f, l)); }, intact); break;
				case 7: refused("assign(n, char)", c, s, [&] { SUT(s.assign(c, 'x')); }, intact); break;
				case 8: refused("assign(range)", d, s, [&] { SUT(s.assign(f, l)); }, intact); break;
				case 9: refused("insert(n, char)", c, s, [&] { SUT(s.insert(s.cbegin() + at, c, 'x')); }, intact); break;
				case 10: refused("insert(range)", d, s, [&] { SUT(s.insert(s.cbegin() + at, f, l)); }, intact); break;
				case 11: case 12: refused("replace(n, char)", c, s, [&] { SUT(s.replace(s.cbegin() + at, s.cbegin() + to, c, 'x')); }, intact); break;
				case 13: case 14: refused("replace(range)", d, s, [&] { SUT(s.replace(s.cbegin() + at, s.cbegin() + to, f, l)); }, intact); break;
				case 15: refused("insert(n, char) at end", c, s, [&] { SUT(s.insert(s.cend(), c, 'x')); }, intact); break;
				case 16: refused("append(n, char)", c, s, [&] { SUT(s.append(c, 'x')); }, intact); break;
				default: if(r.chance(1, 40)) refused("append(endless)", 0, s, [&] { const heap::Sut g; SUT(s.append(Endless<char>{&x, false}, Endless<char>{&x, true})); }, intact);
			}
			if(poisoned) { new S(std::move(s)); return; }
			s.push_back('!'); CHECK("C05", "unusable", s.size() == n + 1 && s.back() == '!' && s.data()[n + 1] == 0, "the string is unusable after a refused request");
		}
		CHECK("C05", "leak", heap::live_blocks == 0, "refused requests leaked %zu blocks", heap::live_blocks);
	}
	SCENARIO("string sizes", "C05", strings, 3);
	SCENARIO("vector<char> sizes", "C05", vectors<char>, 1);
	SCENARIO("vector<int> sizes", "C05", vectors<int>, 1);
	SCENARIO("vector<24 bytes> sizes", "C05", vectors<Blob<20>>, 1);
	SCENARIO("vector<40 bytes> sizes", "C05", vectors<Blob<36>>, 1);
	void wide32(Rng & r) { vectors<Blob<28, 32>>(r); }
	void wide64(Rng & r) { vectors<Blob<60, 64>>(r); }
	void wide96(Rng & r) { vectors<Blob<92, 32>>(r); }
	SCENARIO("vector<over-aligned 32 bytes> sizes", "C05", wide32, 1);
	SCENARIO("vector<over-aligned 64 bytes> sizes", "C05", wide64, 1);
	SCENARIO("vector<over-aligned 96 bytes> sizes", "C05", wide96, 1);
	REQUIRE("C05", "length_error"); REQUIRE("C05", "bad_alloc");
}
