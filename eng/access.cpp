// Checked access of every template: exactly the designated element, or the documented exception and no change.
#include <functional>
#include <limits>
#include <optional>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include "../rt/elems.hpp"
#include "../rt/routes.hpp"

namespace {
	using namespace mon;
	constexpr auto big{std::numeric_limits<std::size_t>::max()};
	std::size_t beyond(Rng & r, std::size_t n, std::size_t cap, std::size_t size) { // an index >= n; often one that wraps around to a valid address
		switch(r.below(12)) {
			case 0: return n; case 1: return n + 1; case 2: return big; case 3: return big - r.below(n + 2); case 4: return (std::size_t{1} << 32) + r.below(n + 1); case 5: return (std::size_t{1} << 63) + r.below(n + 1); case 6: return n + r.below(100); case 7: return cap > n ? n + r.below(cap - n + 1) : n;
			case 8: { const auto k{size ? big / size + 1 : big}; return (k > n ? k : big - n) + r.below(n + 1); } case 9: return (std::size_t{1} << 31) + n; case 10: return (std::size_t{1} << 62) + r.below(n + 1); default: return n < 256 ? 256 + r.below(n + 1) : 65536 + n;
		}
	}
	template<typename E, typename F> bool throws(F && f) { try { f(); } catch(const E &) { return true; } catch(...) {} return false; }

	template<typename T> struct Seen { const char * kind; std::vector<int> m; };
	// c: const view, d: mutable one (or the same), addr(i): where element i is
	template<typename C, typename D> void sequence(Rng & r, const char * kind, const C & c, D & d, const void * base, std::size_t n, std::size_t cap, std::size_t size, const std::function<bool()> & unchanged) {
		for(int k{0}; k < 8 && !poisoned; ++k) {
			const auto i{beyond(r, n, cap, size)};
			OP("%s of %zu: at(%zx)", kind, n, i);
			CHECK("C16", "not-refused", throws<std::out_of_range>([&] { (void)SUT(&c.at(i)); }) && throws<std::out_of_range>([&] { (void)SUT(&d.at(i)); }), "at(%zu) of a %s of %zu elements does not throw std::out_of_range", i, kind, n);
			CHECK("C16", "changed", unchanged(), "a refused access changed a %s", kind);
			HIT("refusals"); Hash h; h.add(kind, std::strlen(kind)); h.add(n); h.add(i); state(h.h);
			if(n) {
				const auto j{r.chance(1, 3) ? n - 1 : r.below(n)};
				const auto want{static_cast<const char *>(base) + j * size};
				const void * p{nullptr}, * q{nullptr};
				try { p = &SUT(c.at(j)); q = &SUT(d.at(j)); } catch(...) { CHECK("C16", "refused", false, "at(%zu) of a %s of %zu elements throws", j, kind, n); return; }
				CHECK("C16", "element", p == want && q == want, "at(%zu) of a %s of %zu elements yields another element", j, kind, n);
				HIT("elements");
			}
		}
	}
	template<typename T> void vectors(Rng & r) {
		const auto n{r.below(12)};
		std::vector<int> m; for(std::size_t i{0}; i < n; ++i) m.push_back(static_cast<int>(r.below(100)));
		auto v{route_vector<T>(r, n, [&](std::size_t i) { return El<T>::make(m[i]); })};
		auto same{[&] { if(v.size() != n) return false; for(std::size_t i{0}; i < n; ++i) if(El<T>::get(v.data()[i]) != El<T>::get(El<T>::make(m[i]))) return false; return true; }};
		sequence(r, "vector", v, v, v.data(), n, v.capacity(), sizeof(T), same);
		if(n) { v.at(n - 1) = El<T>::make(7); m[n - 1] = 7; CHECK("C16", "element", same(), "assigning through at changes another element"); }
		ptl::array_ref<T> a{v.data(), n}; ptl::array_ref<const T> b{v.data(), n};
		sequence(r, "array_ref", b, a, v.data(), n, v.capacity(), sizeof(T), same);
		if(n) { const auto k{r.below(n)}; auto s{a.subrange(k)}; sequence(r, "array_ref into a longer range", s, s, v.data() + k, n - k, n + k, sizeof(T), same); auto f{a.first(k)}; sequence(r, "array_ref to the start of a range", f, f, v.data(), k, n, sizeof(T), same); }
		ptl::array_ref<T> e; sequence(r, "empty array_ref", e, e, nullptr, 0, 0, sizeof(T), same);
	}
	template<typename T, std::size_t N> void array_n(Rng & r) {
		ptl::array<T, N> a; for(std::size_t i{0}; i < N; ++i) a[i] = El<T>::make(static_cast<int>(i + 3));
		sequence(r, "array", a, a, a.data(), N, N, sizeof(T), [&] { for(std::size_t i{0}; i < N; ++i) if(El<T>::get(a.data()[i]) != El<T>::get(El<T>::make(static_cast<int>(i + 3)))) return false; return true; });
	}
	void arrays(Rng & r) { array_n<int, 0>(r); array_n<int, 1>(r); array_n<char, 9>(r); array_n<Tr<0>, 3>(r); array_n<std::string, 4>(r); }
	void strings(Rng & r) {
		static const std::size_t ls[]{0, 1, 5, 21, 22, 23, 24, 60};
		const std::string v{odd_text(r, ls[r.below(8)])};
		ptl::string s{route_string(r, v)};
		if(poisoned) return;
		auto same{[&] { return same_text(s, v) && s.c_str()[v.size()] == 0; }};
		sequence(r, "string", s, s, s.data(), v.size(), s.capacity(), 1, same);
		const ptl::string_ref q{std::string_view{s}}; sequence(r, "string_ref", q, q, s.data(), v.size(), s.capacity(), 1, same);
		if(!v.empty()) { const auto k{r.below(v.size())}; const ptl::string_ref t{s.data() + k, (v.size() - k) / 2}; sequence(r, "string_ref into a longer text", t, t, s.data() + k, (v.size() - k) / 2, v.size(), 1, same); }
		const ptl::string_ref e; sequence(r, "empty string_ref", e, e, nullptr, 0, 0, 1, same);
	}
	template<typename T> void optionals(Rng & r) {
		using O = ptl::optional<T>;
		for(int k{0}; k < 6 && !poisoned; ++k) {
			Place<O> x{r}; O & o{*x}; const O & c{o};
			const int m{r.chance(1, 2) ? -1 : static_cast<int>(r.below(100))};
			if(r.chance(1, 2)) o.emplace(El<T>::make(3));
			if(m < 0) o.reset(); else o = El<T>::make(m);
			OP("optional %d", m);
			ptl::optional_ref<T> p; ptl::optional_ref<const T> q;
			if(m >= 0) { p = *o; q = *c; if(r.chance(1, 2)) { p = ptl::optional_ref<T>{o}; q = ptl::optional_ref<const T>{c}; } } else if(r.chance(1, 2)) { p = ptl::optional_ref<T>{o}; q = ptl::optional_ref<const T>{c}; }
			const auto & cp{p};
			if(m < 0) {
				CHECK("C16", "not-refused", throws<std::bad_optional_access>([&] { (void)SUT(&o.value()); }) && throws<std::bad_optional_access>([&] { (void)SUT(&c.value()); }) && throws<std::bad_optional_access>([&] { T && t{SUT(std::move(o).value())}; (void)&t; }) && throws<std::bad_optional_access>([&] { const T && t{SUT(std::move(c).value())}; (void)&t; }), "value() of an empty optional does not throw std::bad_optional_access");
				CHECK("C16", "not-refused", throws<std::bad_optional_access>([&] { (void)SUT(&p.value()); }) && throws<std::bad_optional_access>([&] { (void)SUT(&cp.value()); }) && throws<std::bad_optional_access>([&] { (void)SUT(&q.value()); }), "value() of an empty optional_ref does not throw std::bad_optional_access");
				CHECK("C16", "changed", !o.has_value() && !p.has_value(), "a refused value() changed an optional");
				HIT("empty optionals");
			} else {
				T && t{SUT(std::move(o).value())}; const T && u{SUT(std::move(c).value())};
				const void * w{&*o};
				CHECK("C16", "element", &SUT(o.value()) == w && &SUT(c.value()) == w && &t == w && &u == w && &SUT(p.value()) == w && &SUT(q.value()) == w && &SUT(cp.value()) == w && w == static_cast<const void *>(&o), "value() of an engaged optional or optional_ref yields another object");
				CHECK("C16", "element", El<T>::get(c.value()) == El<T>::get(El<T>::make(m)), "value() yields another value");
				p.value() = El<T>::make(m / 2 + 1); CHECK("C16", "element", El<T>::get(*c) == El<T>::get(El<T>::make(m / 2 + 1)), "writing through value() does not change the value");
				HIT("engaged optionals");
			}
			Hash h; h.add(El<T>::name(), 3); h.add(static_cast<std::uint64_t>(m + 1)); state(h.h);
		}
	}
	struct Z { int v; bool operator==(const Z & o) const { return v == o.v; } bool operator!=(const Z & o) const { return v != o.v; } };
	using V = ptl::variant<int, std::string, Tr<0>, char, Z>;
	template<typename T> void alt(V & v, bool held) {
		const V & c{v};
		if(!held) {
			CHECK("C16", "not-refused", throws<std::bad_variant_access>([&] { (void)SUT(&v.template get<T>()); }) && throws<std::bad_variant_access>([&] { (void)SUT(&c.template get<T>()); }) && throws<std::bad_variant_access>([&] { T && t{SUT(std::move(v).template get<T>())}; (void)&t; }) && throws<std::bad_variant_access>([&] { const T && t{SUT(std::move(c).template get<T>())}; (void)&t; }), "get of an alternative that is not held does not throw std::bad_variant_access");
			CHECK("C16", "not-refused", SUT(v.template get_if<T>()) == nullptr && SUT(c.template get_if<T>()) == nullptr && !SUT(c.template holds<T>()), "get_if of an alternative that is not held is not null");
			HIT("other alternatives");
		} else {
			const void * w{&v};
			T && t{SUT(std::move(v).template get<T>())}; const T && u{SUT(std::move(c).template get<T>())};
			CHECK("C16", "element", &SUT(v.template get<T>()) == w && &SUT(c.template get<T>()) == w && &t == w && &u == w && SUT(v.template get_if<T>()) == w && SUT(c.template get_if<T>()) == w && SUT(c.template holds<T>()), "get of the held alternative yields another object");
			HIT("held alternatives");
		}
	}
	void variants(Rng & r) {
		for(int k{0}; k < 8 && !poisoned; ++k) {
			Place<V> x{r}; V & v{*x};
			const auto a{r.below(5)}; const int m{static_cast<int>(r.below(100))};
			OP("variant %zu/%d", a, m);
			switch(a) { case 0: v = m; break; case 1: v = std::string(static_cast<std::size_t>(m), 'x'); break; case 2: v = Tr<0>{m}; break; case 3: v = static_cast<char>(m); break; default: v = Z{m}; }
			const V before{v};
			alt<int>(v, a == 0); alt<std::string>(v, a == 1); alt<Tr<0>>(v, a == 2); alt<char>(v, a == 3); alt<Z>(v, a == 4);
			CHECK("C16", "changed", v == before, "an access changed a variant");
			Hash h; h.add(a); h.add(m); state(h.h);
		}
	}
	using R = ptl::variant_ref<int, const int, std::string, const Z, Z>;
	template<typename T> void ref_alt(const R & v, const void * held) {
		if(!held) { CHECK("C16", "not-refused", throws<std::bad_variant_access>([&] { (void)SUT(&v.template get<T>()); }) && SUT(v.template get_if<T>()) == nullptr && !SUT(v.template holds<T>()), "get of a type a variant_ref does not refer to does not throw std::bad_variant_access"); HIT("other references"); }
		else { CHECK("C16", "element", static_cast<const void *>(&SUT(v.template get<T>())) == held && SUT(v.template get_if<T>()) == held && SUT(v.template holds<T>()), "get of a variant_ref yields another object"); HIT("held references"); }
	}
	void variant_refs(Rng & r) {
		int i{1}; const int ci{2}; std::string s{"s"}; const Z cz{3}; Z z{4};
		for(int k{0}; k < 8 && !poisoned; ++k) {
			const auto a{r.below(5)};
			R v{i};
			switch(a) { case 0: v = R{i}; break; case 1: v = R{ci}; break; case 2: v = R{s}; break; case 3: v = R{cz}; break; default: v = R{z}; }
			OP("variant_ref %zu", a);
			ref_alt<int>(v, a == 0 ? &i : nullptr); ref_alt<const int>(v, a == 1 ? &ci : nullptr); ref_alt<std::string>(v, a == 2 ? &s : nullptr); ref_alt<const Z>(v, a == 3 ? &cz : nullptr); ref_alt<Z>(v, a == 4 ? &z : nullptr);
			Hash h; h.add(a + 500); state(h.h);
		}
		CHECK("C16", "changed", i == 1 && s == "s" && z.v == 4, "an access through a variant_ref changed an object");
	}
	SCENARIO("at of vector<int>", "C16", vectors<int>, 2); SCENARIO("at of vector<char>", "C16", vectors<char>, 1); SCENARIO("at of vector<std::string>", "C16", vectors<std::string>, 1); SCENARIO("at of vector<tracked>", "C16", vectors<Tr<0>>, 1); SCENARIO("at of array", "C16", arrays, 2); SCENARIO("at of string", "C16", strings, 2);
	SCENARIO("value of optional<int>", "C16", optionals<int>, 1); SCENARIO("value of optional<tracked>", "C16", optionals<Tr<0>>, 1); SCENARIO("value of optional<std::string>", "C16", optionals<std::string>, 1); SCENARIO("get of variant", "C16", variants, 1); SCENARIO("get of variant_ref", "C16", variant_refs, 1);
	REQUIRE("C16", "refusals"); REQUIRE("C16", "elements"); REQUIRE("C16", "empty optionals"); REQUIRE("C16", "engaged optionals"); REQUIRE("C16", "other alternatives"); REQUIRE("C16", "held alternatives"); REQUIRE("C16", "other references"); REQUIRE("C16", "held references");
}
