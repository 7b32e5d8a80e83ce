// std::hash of string and string_ref: equal for equal texts, different for every single change.
#include <functional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include "../rt/routes.hpp"

namespace {
	using namespace mon;
	const std::hash<ptl::string> hs{}; const std::hash<ptl::string_ref> hr{};
	std::size_t at_offset(Rng & r, const std::string & v) { // the hash of a view of v lying at some other address and alignment
		std::string host(r.below(17), '#'); const auto o{host.size()}; host += v; host += std::string(r.below(9), '~');
		return SUT(hr(ptl::string_ref{host.data() + o, v.size()}));
	}
	void strings(Rng & r) {
		static const std::size_t ls[]{0, 1, 2, 7, 8, 9, 15, 16, 17, 21, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 4099};
		const auto n{r.chance(2, 3) ? ls[r.below(25)] : r.below(300)};
		std::string v;
		switch(r.below(4)) { case 0: v = odd_text(r, n); break; case 1: v.assign(n, 0); break; case 2: for(std::size_t i{0}; i < n; ++i) v += static_cast<char>('a' + i % 26); break; default: for(std::size_t i{0}; i < n; ++i) v += static_cast<char>(r.next()); }
		OP("hash of a text of %zu characters", n);
		const ptl::string s{route_string(r, v)};
		if(poisoned) return;
		const auto base{SUT(hs(s))};
		for(int i{0}; i < 3 && !poisoned; ++i) {
			Place<ptl::string> t{r, route_string(r, v)};
			CHECK("C15", "equal-hash", SUT(hs(*t)) == base, "two equal strings of %zu characters have different hashes (capacities %zu and %zu)", n, s.capacity(), t->capacity());
			CHECK("C15", "equal-hash", SUT(hr(ptl::string_ref{std::string_view{*t}})) == base, "a string of %zu characters and a string_ref to it have different hashes", n);
		}
		CHECK("C15", "equal-hash", at_offset(r, v) == base && at_offset(r, v) == base, "string_refs to equal texts of %zu characters at different addresses have different hashes", n);
		if(n == 0) CHECK("C15", "equal-hash", SUT(hr(ptl::string_ref{})) == base && SUT(hs(ptl::string{})) == base && SUT(hr(ptl::string_ref{"", 0})) == base, "empty texts have different hashes");
		// every single change
		const auto step{n > 400 ? 1 + r.below(n / 100) : 1};
		std::string w{v}; ptl::string t{std::string_view{v}};
		for(std::size_t i{0}; i < n && !poisoned; i += step) {
			const auto j{n > 400 && r.chance(1, 4) ? r.below(n) : i};
			const char c{static_cast<char>(v[j] ^ (r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255)))};
			w[j] = c; t[j] = c;
			CHECK("C15", "insensitive", SUT(hs(t)) != base && SUT(hr(ptl::string_ref{w.data(), n})) != base, "changing character %zu of %zu does not change the hash", j, n);
			w[j] = t[j] = v[j];
			HIT("character changes hashed");
		}
		if(n && r.chance(1, 2)) { w[n - 1] = t[n - 1] = static_cast<char>(v[n - 1] + 1); CHECK("C15", "insensitive", SUT(hs(t)) != base && SUT(hr(ptl::string_ref{w.data(), n})) != base, "changing the last of %zu characters does not change the hash", n); w[n - 1] = t[n - 1] = v[n - 1]; }
		for(char c : {'\0', '\xFF', 'a', n ? v[n - 1] : ' '}) {
			ptl::string x{t}; x.push_back(c);
			CHECK("C15", "insensitive", SUT(hs(x)) != base && at_offset(r, v + c) != base, "appending a character (%d) to %zu does not change the hash", c, n);
		}
		if(n) { CHECK("C15", "insensitive", at_offset(r, v.substr(1)) != base && at_offset(r, v.substr(0, n - 1)) != base, "removing a character from %zu does not change the hash", n);
			const auto i{r.below(n)}, j{r.below(n)}; if(v[i] != v[j]) { std::swap(w[i], w[j]); CHECK("C15", "insensitive", at_offset(r, w) != base, "exchanging characters %zu and %zu of %zu does not change the hash", i, j, n); } }
		HIT("texts hashed"); Hash h; h.add(v.data(), v.size()); state(h.h);
	}
	void maps(Rng & r) { // as keys
		std::unordered_map<ptl::string, int> m; std::unordered_map<std::string, int> ref;
		const auto n{r.range(5, 40)};
		OP("unordered_map with %zu keys", n);
		for(std::size_t i{0}; i < n; ++i) { const auto v{odd_text(r, r.below(4) ? r.below(3) : r.below(60))}; m[route_string(r, v)] = static_cast<int>(i); ref[v] = static_cast<int>(i); }
		CHECK("C15", "map", m.size() == ref.size(), "an unordered_map with string keys has %zu entries, expected %zu", m.size(), ref.size());
		for(auto & [k, v] : ref) { const auto it{m.find(route_string(r, k))}; CHECK("C15", "map", it != m.end() && it->second == v, "a string key is not found again"); }
		std::unordered_map<ptl::string_ref, int> q; for(auto & [k, v] : m) q[std::string_view{k}] = v;
		for(auto & [k, v] : ref) { const auto it{q.find(ptl::string_ref{k.data(), k.size()})}; CHECK("C15", "map", it != q.end() && it->second == v, "a string_ref key is not found again"); }
		HIT("maps"); Hash h; for(auto & [k, v] : ref) h.h += mix(k.size() * 1000 + v); state(h.h);
	}
	SCENARIO("hash of texts", "C15", strings, 3); SCENARIO("hash maps", "C15", maps, 1);
	REQUIRE("C15", "character changes hashed"); REQUIRE("C15", "texts hashed"); REQUIRE("C15", "maps");
}
