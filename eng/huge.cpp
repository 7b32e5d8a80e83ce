// More than 2^32 characters, elements or bits: nothing may be cut to 32 bits on the way. Not sanitised, few cases. Memory is only touched where an operation needs it.
#include <sys/mman.h>
#include <cstdlib>
#include <memory>
#include <new>
#include <stdexcept>
#include <string_view>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/vector.hpp>
#include "../rt/mon.hpp"

namespace {
	using namespace mon;
	constexpr std::size_t G4{std::size_t{1} << 32};
	struct Zeros { // reads of it see zeroes without using memory
		char * p; std::size_t n;
		explicit Zeros(std::size_t n) : p{static_cast<char *>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))}, n{n} { if(p == MAP_FAILED) harness_error("no address space"); }
		Zeros(const Zeros &) =delete;
		~Zeros() { munmap(p, n); }
	};
	bool room(std::size_t need) { // touching that much memory would not end this process
		unsigned long long kb{0}, bytes{0};
		if(FILE * f{std::fopen("/proc/meminfo", "r")}) { char line[200]; while(std::fgets(line, sizeof line, f)) if(std::sscanf(line, "MemAvailable: %llu", &kb) == 1) break; std::fclose(f); }
		if(kb * 1024 < need + (std::size_t{6} << 30)) return false;
		for(const char * path : {"/sys/fs/cgroup/memory.max", "/sys/fs/cgroup/memory/memory.limit_in_bytes"}) if(FILE * f{std::fopen(path, "r")}) { const bool limited{std::fscanf(f, "%llu", &bytes) == 1}; std::fclose(f); if(limited && bytes < need + (std::size_t{6} << 30)) return false; }
		return true;
	}
	void saw(const char * p, std::size_t n) { Hash h; h.add(p, std::strlen(p)); h.add(n); state(h.h); HIT("more than 2^32"); }
	#define SEE(p, cond, ...) CHECK(p, "beyond-32-bits", cond, __VA_ARGS__)
	template<typename F> bool out_of_range(F && f) { try { (void)f(); } catch(const std::out_of_range &) { return true; } return false; }

	void capacities(Rng & r) { // memory is reserved, hardly touched
		const auto k{G4 + r.range(1, 1000)};
		for(const auto n : {k, k - 2000, G4 / 2 + r.below(1000)}) {
			OP("reserve %zu", n);
			{ ptl::string s{"some text"}; try { s.reserve(n); } catch(const std::bad_alloc &) { HIT("no memory for it"); continue; } SEE("C03", s.capacity() >= n, "after reserve(%zu) the capacity of a string is %zu", n, s.capacity()); SEE("C03", s == std::string_view{"some text"}, "reserve(%zu) changed the text", n); const auto d{s.data()}; s.append(5000, 'q'); SEE("C03", s.size() == 5009 && s.data() == d && s[5008] == 'q' && s.data()[5009] == 0, "a string with capacity %zu reallocates or loses characters", s.capacity()); ptl::string t{"x"}; t.swap(s); SEE("C03", t.capacity() >= n && t.size() == 5009 && s == std::string_view{"x"}, "swap of a string with capacity %zu", n); ptl::string m{std::move(t)}; SEE("C03", m.capacity() >= n && m.size() == 5009, "move of a string with capacity %zu", n); }
			{ ptl::vector<char> v{'a', 'b'}; v.reserve(n); SEE("C01", v.capacity() >= n && v.size() == 2 && v[1] == 'b', "after reserve(%zu) the capacity of a vector is %zu", n, v.capacity()); const auto d{v.data()}; for(int i{0}; i < 100; ++i) v.push_back('z'); SEE("C01", v.data() == d && v.size() == 102, "a vector with capacity %zu reallocates", n); ptl::vector<char> w; w.swap(v); SEE("C01", w.capacity() >= n && w.size() == 102, "swap of a vector with capacity %zu", n); }
			saw("reserve", n);
		}
		struct Big { int v; char rest[65532]; }; // few elements, more than 2^32 bytes
		const std::size_t n{G4 / sizeof(Big) + r.range(2, 50)};
		OP("%zu elements of %zu bytes", n, sizeof(Big));
		ptl::vector<Big> v; v.reserve(n); SEE("C01", v.capacity() >= n, "capacity for big elements"); for(int i{0}; i < 5; ++i) { v.emplace_back(); v.back().v = i; } v.insert(v.begin(), v[4]); SEE("C01", v.size() == 6 && v[0].v == 4 && v[5].v == 4, "big elements"); saw("big elements", n);
	}
	void long_string(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; OP("string of %zu characters", n);
		if(!room(n)) { HIT("no memory for it"); HIT("more than 2^32"); return; }
		try {
			ptl::string s(n, 'a');
			SEE("C03", s.size() == n && s.end() - s.begin() == static_cast<std::ptrdiff_t>(n) && s.capacity() >= n, "a string of %zu characters has %zu", n, s.size());
			SEE("C03", s[0] == 'a' && s[k] == 'a' && s[n - 1] == 'a' && s.data()[n] == 0 && s.back() == 'a', "the last characters of a string of %zu", n);
			s[n - 1] = 'z'; s[n - 2] = 'y'; s.at(k - 1) = 'q';
			SEE("C03", s[k - 1] == 'q' && s.at(n - 1) == 'z' && s.back() == 'z', "element access beyond 2^32");
			SEE("C16", out_of_range([&]() -> decltype(auto) { return s.at(n); }) && out_of_range([&]() -> decltype(auto) { return s.at(n + G4); }), "at(%zu) of a string of %zu does not throw", n, n);
			{ const auto t{std::as_const(s).substr(n - 3)}; SEE("C03", t == std::string_view{"ayz"}, "substr(%zu)", n - 3); const auto u{std::as_const(s).substr(k - 2, 3)}; SEE("C03", u == std::string_view{"aqa"}, "substr"); }
			const std::string_view sv{s}; SEE("C03", sv.size() == n, "view of %zu characters has %zu", n, sv.size());
			s.resize(n - 1); SEE("C03", s.size() == n - 1 && s.back() == 'y' && s.data()[n - 1] == 0, "resize to %zu", n - 1);
			s.push_back('w'); SEE("C03", s.size() == n && s.back() == 'w', "push_back after %zu characters", n - 1);
			const auto it{s.insert(s.end() - 2, std::string_view{"0123"}.substr(0, s.capacity() - s.size() < 4 ? s.capacity() - s.size() : 4))}; const auto e{s.size() - n}; SEE("C03", it - s.begin() == static_cast<std::ptrdiff_t>(n - 2) && s.back() == 'w' && s[n - 2 + e] == 'y', "insert behind 2^32 characters");
			const auto er{s.erase(s.begin() + 1, s.end() - static_cast<std::ptrdiff_t>(e) - 2)}; SEE("C03", s.size() == 3 + e && er - s.begin() == 1 && s[0] == 'a' && s.back() == 'w' && s[1 + e] == 'y', "erase of more than 2^32 characters leaves %zu", s.size());
			saw("string", n);
		} catch(const std::bad_alloc &) { HIT("no memory for it"); HIT("more than 2^32"); }
	}
	void long_vector(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; OP("vector of %zu elements", n);
		if(!room(n)) { HIT("no memory for it"); HIT("more than 2^32"); return; }
		try {
			ptl::vector<char> v(n, 'a');
			SEE("C01", v.size() == n && v.end() - v.begin() == static_cast<std::ptrdiff_t>(n) && v[n - 1] == 'a' && v[k] == 'a', "a vector of %zu elements has %zu", n, v.size());
			v[n - 1] = 'z'; v[n - 2] = 'y'; v.at(k - 1) = 'q'; SEE("C01", v[k - 1] == 'q' && v.at(n - 1) == 'z' && v.back() == 'z', "element access beyond 2^32");
			SEE("C16", out_of_range([&]() -> decltype(auto) { return v.at(n); }) && out_of_range([&]() -> decltype(auto) { return v.at(n + G4); }), "at(%zu) of a vector of %zu does not throw", n, n);
			v.pop_back(); v.pop_back(); v.push_back('y'); v.push_back('w'); SEE("C01", v.size() == n && v.back() == 'w', "push_back");
			v.resize(n - 1); SEE("C01", v.size() == n - 1 && v.back() == 'y', "resize"); v.resize(n); SEE("C01", v.size() == n && v.back() == 0, "resize");
			const auto er{v.erase(v.begin() + 1, v.end() - 2)}; SEE("C01", v.size() == 3 && er - v.begin() == 1 && v[0] == 'a' && v[1] == 'y' && v[2] == 0, "erase of more than 2^32 elements leaves %zu", v.size());
			const auto cap{v.capacity()}; SEE("C01", cap >= n, "capacity"); v.assign(G4 + 2, 'b'); SEE("C01", v.size() == G4 + 2 && v[0] == 'b' && v[G4 + 1] == 'b', "assign of more than 2^32 elements");
			saw("vector", n);
		} catch(const std::bad_alloc &) { HIT("no memory for it"); HIT("more than 2^32"); }
	}
	void long_bitset(Rng & r) {
		if(!room(G4 / 8)) { HIT("no memory for it"); HIT("more than 2^32"); return; }
		constexpr std::size_t N{G4 + 21}; using B = ptl::bitset<N>; OP("bitset of %zu bits", N);
		std::unique_ptr<B> p{new B}; B & b{*p}; SEE("C13", b.size() == N && b.none() && b.count() == 0, "a fresh bitset of %zu bits", N);
		const auto k{r.below(21)}; b.set(G4 + k); SEE("C13", b.test(G4 + k) && b[G4 + k] && !b.test(k) && b.count() == 1 && b.any(), "bit %zu", G4 + k);
		b.set(G4 + k, false); b[G4 + 20] = true; SEE("C13", b.test(N - 1) && !b[20] && b.count() == 1, "last bit");
		b >>= 1; SEE("C13", b.test(G4 + 19) && b.count() == 1, "right shift by 1"); b <<= 1; SEE("C13", b.test(G4 + 20) && b.count() == 1, "left shift by 1");
		b.set(); SEE("C13", b.all() && b.count() == N, "%zu bits are set instead of %zu", b.count(), N); b.flip(G4 + 1); SEE("C13", !b.all() && b.count() == N - 1 && !b[G4 + 1] && b[1], "flip"); b.flip(); SEE("C13", b.count() == 1 && b[G4 + 1], "flip of all"); b.reset(); SEE("C13", b.none(), "reset");
		SEE("C16", out_of_range([&] { return b.test(N); }) && out_of_range([&] { b.set(N + G4); return 0; }) && out_of_range([&] { b.reset(N); return 0; }), "positions behind the end");
		saw("bitset", N + k);
	}
	void long_views(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; Zeros z{n + 1}; OP("views of %zu characters", n);
		z.p[0] = '<'; z.p[n - 1] = '>'; z.p[k] = 'k'; z.p[n - 2] = '2';
		ptl::string_ref s{z.p, n}; SEE("C17", s.size() == n && s.data() == z.p && s.end() - s.begin() == static_cast<std::ptrdiff_t>(n) && s.back() == '>' && s[n - 2] == '2', "string_ref of %zu characters has %zu", n, s.size());
		{ const auto t{s.substr(n - 2)}; SEE("C17", t.size() == 2 && t.data() == z.p + n - 2, "substr(%zu)", n - 2); const auto u{s.substr(1, G4 + 1)}; SEE("C17", u.size() == G4 + 1 && u.data() == z.p + 1, "substr of more than 2^32"); auto v{s}; v.remove_prefix(G4); SEE("C17", v.size() == k && v.data() == z.p + G4, "remove_prefix(2^32)"); v = s; v.remove_suffix(G4); SEE("C17", v.size() == k && v.data() == z.p, "remove_suffix(2^32)"); }
		SEE("C16", out_of_range([&]() -> decltype(auto) { return s.at(n); }) && s.at(n - 1) == '>', "at() of a string_ref of %zu", n);
		ptl::array_ref<char> a{z.p, n}; SEE("C17", a.size() == n && a.data() == z.p && a.back() == '>' && &a[G4] == z.p + G4 && a.end() - a.begin() == static_cast<std::ptrdiff_t>(n), "array_ref of %zu elements has %zu", n, a.size());
		ptl::array_ref<const long long> l{reinterpret_cast<const long long *>(z.p), n / 8}; SEE("C17", l.size() == n / 8 && static_cast<const void *>(l.data() + l.size() - 1) == z.p + (n / 8 - 1) * 8 && &l.back() == l.data() + (n / 8 - 1), "array_ref of long long");
		SEE("C16", out_of_range([&]() -> decltype(auto) { return a.at(n); }) && &a.at(n - 1) == z.p + n - 1, "at() of an array_ref of %zu", n);
		{ const auto b{s.begin()}; const auto e{b + static_cast<std::ptrdiff_t>(n)}; SEE("C20", e == s.end() && e - b == static_cast<std::ptrdiff_t>(n) && *(e - 1) == '>' && b[static_cast<std::ptrdiff_t>(n - 2)] == '2' && b < e && e > b, "iterators 2^32 apart"); auto i{b}; i += static_cast<std::ptrdiff_t>(G4); SEE("C20", &*i == z.p + G4, "+= 2^32"); i -= static_cast<std::ptrdiff_t>(G4); SEE("C20", i == b, "-= 2^32"); const auto c{a.begin()}; SEE("C20", &c[static_cast<std::ptrdiff_t>(G4)] == z.p + G4 && &*(c + static_cast<std::ptrdiff_t>(G4)) == z.p + G4, "iterators of an array_ref"); }
		saw("views", n);
	}
	void long_array(Rng & r) {
		constexpr std::size_t n{G4 + 7}; using A = ptl::array<char, n>; Zeros z{sizeof(A)}; OP("array of %zu", n); A & a{*reinterpret_cast<A *>(z.p)};
		z.p[n - 1] = '>'; z.p[G4] = 'g'; SEE("C21", a.size() == n && a.max_size() == n && a.back() == '>' && a[G4] == 'g' && &a.front() == z.p && a.data() == z.p && a.end() - a.begin() == static_cast<std::ptrdiff_t>(n) && !a.empty(), "array of %zu characters", n);
		SEE("C16", a.at(G4) == 'g' && out_of_range([&]() -> decltype(auto) { return a.at(n); }) && out_of_range([&]() -> decltype(auto) { return a.at(n + G4); }), "at() of an array of %zu", n);
		SEE("C20", *(a.begin() + static_cast<std::ptrdiff_t>(G4)) == 'g' && a.begin()[static_cast<std::ptrdiff_t>(n - 1)] == '>' && *a.rbegin() == '>', "iterators of an array of %zu", n);
		saw("array", n + r.below(2));
	}
	void long_comparisons(Rng & r) { // equal but for what lies behind the first 2^32 characters
		const auto k{r.range(3, 500)}, n{G4 + k}; Zeros z{n}, y{n}; y.p[n - 1] = 1; OP("comparison of %zu characters", n);
		ptl::string_ref a{z.p, n}, b{y.p, G4}, c{y.p, k}, d{y.p, n}; SEE("C12", a != d && a < d && d > a && !(d <= a), "texts that differ in the last of %zu characters", n); SEE("C12", a != b && b < a && !(a < b) && a > b && a != c && c < a && a >= c && !(a <= c), "texts of 2^32 + %zu, 2^32 and %zu characters", k, k);
		saw("comparisons", n);
	}
	void long_hashes(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; Zeros z{n}; OP("hash of %zu characters", n);
		const ptl::string_ref a{z.p, n}; const auto h{std::hash<ptl::string_ref>{}(a)}; z.p[n - 1] = 1; SEE("C15", std::hash<ptl::string_ref>{}(a) != h, "the last of %zu characters is not part of the hash", n); saw("hash", n);
	}
	// more than 2^32 characters or elements arrive in one operation
	std::size_t nth() { return case_index / 6 * 4 + (case_index % 6 < 2 ? 0 : case_index % 6 - 2); } // of six cases four grow something
	void grown_string(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; const auto how{nth() % 9}; OP("string grown by %zu characters at once (%d)", n, (int)how);
		if(!room(2 * n)) { HIT("no memory for it"); HIT("more than 2^32"); return; }
		try {
			Zeros z{n}; z.p[0] = '<'; z.p[k] = 'k'; z.p[G4 + 1] = 'm'; z.p[n - 1] = '>'; const char * const b{z.p}; const char * const e{z.p + n}; const std::string_view sv{z.p, n};
			ptl::string s{"ab"}; std::size_t before{2}, after{0};
			switch(how) {
				case 0: s.append(sv); break; case 1: s.append(b, e); break; case 2: s.assign(sv); before = 0; break; case 3: s.assign(b, e); before = 0; break;
				case 4: s.insert(s.begin() + 1, b, e); before = after = 1; break; case 5: s.insert(s.begin() + 1, sv); before = after = 1; break;
				case 6: s.replace(s.begin(), s.begin() + 1, b, e); before = 0; after = 1; break; case 7: s = ptl::string{b, e}; before = 0; break; default: s = s + sv; }
			const auto at{[&](std::size_t i) { return s[before + i]; }};
			SEE("C03", s.size() == before + n + after, "%zu characters became %zu", before + n + after, s.size());
			if(!poisoned) SEE("C03", at(0) == '<' && at(1) == 0 && at(k) == 'k' && at(G4) == (k ? 0 : '<') && at(G4 + 1) == 'm' && at(n - 1) == '>' && at(n - 2) == (n - 2 == G4 + 1 ? 'm' : 0) && s.data()[s.size()] == 0, "characters of a string of %zu", n);
			if(!poisoned) SEE("C03", (!before || s[0] == 'a') && (!after || s.back() == 'b'), "what stood around them");
			saw("grown string", n * 16 + how);
		} catch(const std::bad_alloc &) { HIT("no memory for it"); HIT("more than 2^32"); }
	}
	void grown_vector(Rng & r) {
		const auto k{r.range(3, 500)}, n{G4 + k}; const auto how{nth() % 6}; OP("vector grown by %zu elements at once (%d)", n, (int)how);
		if(!room(2 * n)) { HIT("no memory for it"); HIT("more than 2^32"); return; }
		try {
			Zeros z{n}; const bool fill{how == 3 || how == 4}; z.p[0] = '<'; z.p[k] = 'k'; z.p[G4 + 1] = 'm'; z.p[n - 1] = '>'; const char * const b{z.p}; const char * const e{z.p + n};
			ptl::vector<char> v{'a', 'b'}; std::size_t before{2}, after{0};
			switch(how) {
				case 0: v.assign(b, e); before = 0; break; case 1: v.insert(v.begin() + 1, b, e); before = after = 1; break; case 2: v = ptl::vector<char>(b, e); before = 0; break;
				case 3: v.insert(v.begin() + 1, n, 'f'); before = after = 1; break; case 4: v.resize(n + 2, 'f'); break; default: v.insert(v.end(), b, e); }
			SEE("C01", v.size() == before + n + after, "%zu elements became %zu", before + n + after, v.size());
			if(!poisoned) SEE("C01", fill ? v[before] == 'f' && v[before + k] == 'f' && v[before + G4 + 1] == 'f' && v[before + n - 1] == 'f' : v[before] == '<' && v[before + 1] == 0 && v[before + k] == 'k' && v[before + G4] == 0 && v[before + G4 + 1] == 'm' && v[before + n - 1] == '>', "elements of a vector of %zu", n);
			if(!poisoned) SEE("C01", (!before || v[0] == 'a') && (!after || v.back() == 'b'), "what stood around them");
			saw("grown vector", n * 16 + how);
		} catch(const std::bad_alloc &) { HIT("no memory for it"); HIT("more than 2^32"); }
	}
	SCENARIO("string grown by more than 2^32", "C03", grown_string, 4); SCENARIO("vector grown by more than 2^32", "C01", grown_vector, 4);
	SCENARIO("capacities beyond 2^32", "C01,C03", capacities, 1);
	SCENARIO("string beyond 2^32", "C03,C16", long_string, 1);
	SCENARIO("vector beyond 2^32", "C01,C16", long_vector, 1);
	SCENARIO("bitset beyond 2^32", "C13,C16", long_bitset, 1);
	SCENARIO("views beyond 2^32", "C16,C17,C20", long_views, 1);
	SCENARIO("array beyond 2^32", "C16,C20,C21", long_array, 1);
	SCENARIO("comparisons beyond 2^32", "C12", long_comparisons, 1);
	SCENARIO("hashes beyond 2^32", "C15", long_hashes, 1);
	REQUIRE("C01", "more than 2^32"); REQUIRE("C03", "more than 2^32"); REQUIRE("C13", "more than 2^32"); REQUIRE("C17", "more than 2^32"); REQUIRE("C20", "more than 2^32"); REQUIRE("C21", "more than 2^32"); REQUIRE("C12", "more than 2^32"); REQUIRE("C15", "more than 2^32"); REQUIRE("C16", "more than 2^32");
}
