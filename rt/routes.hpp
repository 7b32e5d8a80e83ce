// The same abstract value produced through different histories, capacities, storage forms and previous memory contents.
#pragma once
#include "heap.hpp"
#include <new>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <ptl/optional.hpp>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>

namespace mon {
	// an object living in memory with arbitrary previous contents
	template<typename T> struct Place {
		alignas(64) unsigned char raw[sizeof(T) + 64]; T * p{nullptr};
		template<typename... X> explicit Place(Rng & r, X &&... x) { const auto f{r.below(3)}; for(auto & c : raw) c = f == 0 ? 0 : f == 1 ? 255 : static_cast<unsigned char>(r.next()); p = new(raw) T(std::forward<X>(x)...); }
		~Place() { p->~T(); }
		Place(const Place &) =delete;
		T & operator*() { return *p; }
		T * operator->() { return p; }
	};
	inline std::string odd_text(Rng & r, std::size_t n) { static const char set[]{0, 1, 'a', 'b', 127, -128, -1}; std::string s(n, 0); for(auto & c : s) c = set[r.below(7)]; return s; }
	inline bool same_text(const ptl::string & s, const std::string & v) { return s.size() == v.size() && (v.empty() || std::memcmp(s.data(), v.data(), v.size()) == 0); }

	inline ptl::string route_string(Rng & r, const std::string & v) {
		const std::string_view w{v};
		ptl::string s;
		switch(r.below(9)) {
			case 0: s = ptl::string{w}; break;
			case 1: s.reserve(v.size() + r.below(200)); s.append(w); break;
			case 2: s.assign(100, 'x'); s = w; break; // heap storage holding a possibly short text
			case 3: for(char c : v) s.push_back(c); break;
			case 4: { const auto a{r.below(60)}; s.assign(a, 'q'); s.append(w); s.append(r.below(60), 'z'); s.resize(a + v.size()); s.erase(s.begin(), s.begin() + static_cast<std::ptrdiff_t>(a)); break; }
			case 5: { ptl::string t{w}; s.assign(r.below(80), 'w'); s.swap(t); break; }
			case 6: { s.assign(w); s.append(40, 'k'); s.resize(v.size()); if(r.chance(1, 2)) s.shrink_to_fit(); break; }
			case 7: { s.assign(60, '\xFF'); s.assign(w); ptl::string t{std::move(s)}; return t; }
			default: { const auto a{r.below(50)}, b{r.below(50)}; ptl::string t(a, 'm'); t.append(w); t.append(b, 'n'); if(r.chance(1, 2)) s = std::as_const(t).substr(a, v.size()); else s = std::move(t).substr(a, v.size()); }
		}
		if(!same_text(s, v)) violate("C03", "route", "a string built through another history differs");
		return s;
	}
	template<typename T, typename Make> ptl::vector<T> route_vector(Rng & r, std::size_t n, Make && make) { // make(i) yields the i-th value
		ptl::vector<T> v;
		switch(r.below(6)) {
			case 0: for(std::size_t i{0}; i < n; ++i) v.push_back(make(i)); break;
			case 1: v.reserve(n + r.below(30)); for(std::size_t i{0}; i < n; ++i) v.emplace_back(make(i)); break;
			case 2: for(std::size_t i{n}; i-- > 0;) v.insert(v.begin(), make(i)); break;
			case 3: { for(std::size_t i{0}; i < n; ++i) v.push_back(make(i)); const auto k{n ? r.below(5) : 0}; for(std::size_t i{0}; i < k; ++i) v.push_back(make(0)); while(v.size() > n) v.pop_back(); if(r.chance(1, 2)) v.shrink_to_fit(); break; }
			case 4: { ptl::vector<T> w; for(std::size_t i{0}; i < n; ++i) w.push_back(make(i)); v.reserve(r.below(40)); if(r.chance(1, 2)) v = w; else v = std::move(w); break; }
			default: { std::vector<T> w; for(std::size_t i{0}; i < n; ++i) w.push_back(make(i)); v.assign(w.begin(), w.end()); ptl::vector<T> x{v}; x.swap(v); }
		}
		if(v.size() != n) violate("C01", "route", "a vector built through another history has %zu elements, expected %zu", v.size(), n);
		return v;
	}
}
