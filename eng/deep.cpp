// Nested compositions of the owning templates: histories judged by the same history on std types (C28).
#include "../rt/world.hpp"
#include "../rt/tracked.hpp"
#include <memory>
#ifndef PART
#define PART 0
#endif
namespace {
	using namespace world;
	namespace heap = mon::heap;
}
namespace world {
	struct Rec; // a user's type built from the templates
	template<typename W> struct RecT { typename W::string name; typename W::template optional<typename W::template vector<typename W::string>> tags; typename W::template variant<int, typename W::string> id; };
	template<typename W> bool operator==(const RecT<W> & a, const RecT<W> & b) noexcept { return a.name == b.name && a.tags == b.tags && a.id == b.id; }
	template<typename W> bool operator!=(const RecT<W> & a, const RecT<W> & b) noexcept { return !(a == b); }
	template<> struct Ordered<Rec> : std::false_type {};
	template<typename W> struct Do<W, Rec> {
		using T = RecT<W>; using Tags = Do<W, Opt<Vec<S>>>; using Id = Do<W, Var<I, S>>;
		static T gen(Rng & r) { ++depth; auto n{Do<W, S>::gen(r)}; auto t{Tags::gen(r)}; auto i{Id::gen(r)}; --depth; return {std::move(n), std::move(t), std::move(i)}; }
		static void mutate(T & a, T & b, Rng & r) { switch(r.below(7)) { case 0: a = b; break; case 1: std::swap(a, b); break; case 2: Do<W, S>::mutate(a.name, b.name, r); break; case 3: Tags::mutate(a.tags, b.tags, r); break; case 4: Id::mutate(a.id, b.id, r); break; case 5: { T c{a}; a = std::move(b); b = c; break; } default: a = gen(r); } }
		static void dump(const T & t, Out & o) { o.put('R'); Do<W, S>::dump(t.name, o); Tags::dump(t.tags, o); Id::dump(t.id, o); }
		static int cmp(const T & a, const T & b) { return (a == b) | (a != b) << 1; }
	};
}
namespace {
	char text_data[64]; int int_data[16];
	struct Slot {
		static constexpr std::size_t room{512};
		std::unique_ptr<unsigned char[]> raw; unsigned char * p{nullptr}; std::size_t n{0}; alignas(64) unsigned char m[room]; // objects end where their block ends, so that ASan sees an overrun
		void place(const Ops & o, mon::Rng & r) { n = o.size; raw.reset(new unsigned char[n + 64]); p = raw.get() + (o.align == 1 ? r.below(8) : 0); std::memset(raw.get(), 0xE7, n + 64); }
		bool intact() const { for(auto q{raw.get()}; q < p; ++q) if(*q != 0xE7) return false; for(auto q{p + n}; q < raw.get() + n + 64; ++q) if(*q != 0xE7) return false; return true; }
	};
	struct Buf { std::vector<char> c; Out o; Buf() : c(1 << 18), o{c.data(), c.size()} {} void reset() { o.n = 0; o.full = false; } };
	void history(const Ops & po, const Ops & mo, mon::Rng & r) {
		for(std::size_t i{0}; i < sizeof text_data; ++i) text_data[i] = static_cast<char>(i * 29);
		ctx = {text_data, sizeof text_data, int_data, 16};
		static Buf want, got;
		if(mo.size > Slot::room) mon::harness_error("room");
		Slot slots[3];
		const auto look{[&](const char * op) {
			for(int i{0}; i < 3 && !mon::poisoned; ++i) {
				auto & s{slots[i]};
				want.reset(); mo.dump(s.m, &want.o); got.reset();
				{ heap::Sut x; po.dump(s.p, &got.o); }
				if(want.o.full) mon::harness_error("value too large");
				CHECK("C28", "outside-object", s.intact(), "%s: memory outside the object was written (by %s)", po.name, op);
				CHECK("C28", "value", got.o.n == want.o.n && !std::memcmp(got.c.data(), want.c.data(), got.o.n), "after %s, object %d of type %s is %.*s expected %.*s", op, i, po.name, static_cast<int>(got.o.n), got.c.data(), static_cast<int>(want.o.n), want.c.data());
			}
		}};
		const auto make{[&](Slot & s, bool fresh) {
			s.place(po, r);
			if(fresh) { { heap::Sut x; po.fresh(s.p); } mo.fresh(s.m); return; }
			Rng g{r.next()}; Rng h{g};
			mo.gen(s.m, &g); heap::Sut x; po.gen(s.p, &h);
		}};
		const auto drop{[&](Slot & s) { { heap::Sut x; po.destroy(s.p); } mo.destroy(s.m); }};
		for(auto & s : slots) make(s, r.chance(1, 4));
		look("construction");
		const auto n{r.range(8, 40)};
		for(std::size_t q{0}; q < n && !mon::poisoned; ++q) {
			const auto a{r.below(3)}, b{(a + 1 + r.below(2)) % 3}; Slot & x{slots[a]}, & y{slots[b]};
			const char * op{"an operation"}; mon::Hash h; h.add(std::strlen(po.name)); h.add(po.name, std::strlen(po.name));
			const auto what{r.below(14)}; h.add(what > 4 ? 5 : what);
			switch(what) {
				case 0: OP("replace %zu", a); op = "replacement"; drop(x); make(x, false); break;
				case 1: OP("%zu: copy of %zu", a, b); op = "copy construction"; drop(x); x.place(po, r); { heap::Sut z; po.copy(x.p, y.p); } mo.copy(x.m, y.m); HIT("deep copies"); break;
				case 2: OP("%zu: moved from %zu", a, b); op = "move construction"; drop(x); x.place(po, r); { heap::Sut z; po.move(x.p, y.p); } mo.move(x.m, y.m); drop(y); make(y, false); HIT("deep moves"); break;
				default: { Rng g{r.next()}; Rng g2{g}, g3{g}; const auto k{g3.below(32)}; h.add(k); OP("%s: operation %zu.. on %zu, %zu (seed %llx)", po.name, k, a, b, static_cast<unsigned long long>(g.s)); { heap::Sut z; po.mutate(x.p, y.p, &g); } mo.mutate(x.m, y.m, &g2); HIT("operations on nested values"); if(g.s != g2.s) { CHECK("C28", "observed", false, "%s: an observer used by the operation returned something unexpected", po.name); } }
			}
			look(op);
			if(mon::poisoned) break;
			int c; { heap::Sut z; c = po.cmp(x.p, y.p); } const int d{mo.cmp(x.m, y.m)};
			CHECK("C28", "compare", c == d, "%s: comparisons yield %x, expected %x", po.name, c, d);
			want.reset(); mo.dump(x.m, &want.o); h.add(want.o.n); mon::state(h.h);
		}
		if(!mon::poisoned && r.chance(1, 2)) { // from here on memory runs out now and then; values are no longer predicted, but nothing may break
			HIT("histories with failing allocations");
			for(int q{0}; q < 12; ++q) {
				const auto a{r.below(3)}, b{(a + 1 + r.below(2)) % 3};
				Rng g{r.next()};
				OP("operation with failing allocation on %zu, %zu (seed %llx)", a, b, static_cast<unsigned long long>(g.s));
				heap::fired = false; const int d0{depth};
				try { heap::Sut z; heap::fail_in = static_cast<long>(r.below(12)); if(q % 3 == 2) { const auto k{po.size}; std::unique_ptr<unsigned char[]> t{(heap::Out{}, new unsigned char[k])}; po.copy(t.get(), slots[a].p); heap::fail_in = -1; po.destroy(t.get()); heap::Out o; t.reset(); } else po.mutate(slots[a].p, slots[b].p, &g); }
				catch(const std::bad_alloc &) { HIT("operations ended by an exception"); }
				heap::fail_in = -1; depth = d0;
				for(auto & s : slots) { got.reset(); heap::Sut z; po.dump(s.p, &got.o); CHECK("C28", "outside-object", s.intact(), "%s: memory outside the object was written", po.name); }
			}
		}
		if(mon::poisoned) return;
		for(auto & s : slots) drop(s);
		CHECK("C28", "leak", heap::live_blocks == 0, "%s: %zu blocks (%zu bytes) were never returned", po.name, heap::live_blocks, heap::live_bytes);
	}
	#define TYPE(name, ...) static void MON_CAT(deep, __LINE__)(mon::Rng & r) { static const Ops p{ops<P, __VA_ARGS__>(name)}, m{ops<M, __VA_ARGS__>(name)}; history(p, m, r); } SCENARIO(name, "C28", MON_CAT(deep, __LINE__), 2)
	#if PART == 0
	TYPE("vector<string>", Vec<S>);
	TYPE("vector<vector<vector<string>>>", Vec<Vec<Vec<S>>>);
	TYPE("vector<optional<vector<string>>>", Vec<Opt<Vec<S>>>);
	TYPE("vector<array<vector<string>, 2>>", Vec<Arr<Vec<S>, 2>>);
	#elif PART == 1
	TYPE("variant<vector<string>, optional<vector<int>>, array<string, 2>, string>", Var<Vec<S>, Opt<Vec<I>>, Arr<S, 2>, S>);
	TYPE("vector<variant<string, vector<variant<int, string>>>>", Vec<Var<S, Vec<Var<I, S>>>>);
	TYPE("optional<variant<vector<optional<string>>, string, char>>", Opt<Var<Vec<Opt<S>>, S, C>>);
	#elif PART == 2
	TYPE("array<optional<variant<string, vector<string>>>, 3>", Arr<Opt<Var<S, Vec<S>>>, 3>);
	TYPE("tuple<vector<optional<string>>, array<string, 2>, variant<int, string>, char>", Tup<Vec<Opt<S>>, Arr<S, 2>, Var<I, S>, C>);
	TYPE("array<array<vector<char>, 2>, 3>", Arr<Arr<Vec<C>, 2>, 3>);
	#elif PART == 3
	TYPE("tuple<optional<array<vector<string>, 2>>, string, variant<vector<int>, string>>", Tup<Opt<Arr<Vec<S>, 2>>, S, Var<Vec<I>, S>>);
	TYPE("vector<record>", Vec<Rec>);
	TYPE("optional<record>", Opt<Rec>);
	TYPE("variant<string, record, vector<record>>", Var<S, Rec, Vec<Rec>>);
	#else
	// a container is replaced by a copy of a part of itself
	using string = ptl::string; template<typename T> using vector = ptl::vector<T>;
	string text(mon::Rng & r) { Rng g{r.next()}; const auto t{world::text(g)}; return string{std::string_view{t}}; }
	vector<string> texts(mon::Rng & r, std::size_t n) { vector<string> v; for(std::size_t i{0}; i < n; ++i) v.push_back(text(r)); return v; }
	vector<vector<string>> lists(mon::Rng & r, std::size_t n) { vector<vector<string>> v; for(std::size_t i{0}; i < n; ++i) v.push_back(texts(r, r.range(1, 5))); return v; }
	std::string plain(const string & s) { heap::Out o; return std::string(s.data(), s.size()); }
	std::vector<std::string> plain(const vector<string> & v) { heap::Out o; std::vector<std::string> r; for(auto & s : v) r.push_back(plain(s)); return r; }
	std::vector<std::vector<std::string>> plain(const vector<vector<string>> & v) { heap::Out o; std::vector<std::vector<std::string>> r; for(auto & s : v) r.push_back(plain(s)); return r; }
	void own_part(mon::Rng & r) {
		heap::Sut sut;
		using V = ptl::variant<string, vector<string>, vector<vector<string>>>;
		const auto what{r.below(11)}; std::size_t n{0};
		OP("own part, kind %zu", what); HIT("containers replaced by a part of themselves");
		#define SAME(a, b) CHECK("C28", "own-part", (a) == (b), "a container replaced by a copy of a part of itself does not hold that part (kind %zu)", what)
		switch(what) {
			case 0: { V v{lists(r, r.range(1, 4))}; auto & all{v.get<vector<vector<string>>>()}; const auto k{r.below(all.size())}; const auto want{plain(all[k])}; n = want.size(); if(r.chance(1, 2)) v = all[k]; else v = std::move(all[k]); SAME(v.holds<vector<string>>(), true); if(!mon::poisoned) SAME(plain(v.get<vector<string>>()), want); break; }
			case 1: { V v{texts(r, r.range(1, 5))}; auto & all{v.get<vector<string>>()}; const auto k{r.below(all.size())}; const auto want{plain(all[k])}; n = want.size(); if(r.chance(1, 2)) v = std::as_const(all[k]); else v = std::move(all[k]); SAME(v.holds<string>(), true); if(!mon::poisoned) SAME(plain(v.get<string>()), want); break; }
			case 2: { V v{text(r)}; const auto want{plain(v.get<string>())}; n = want.size(); v = v.get<string>(); if(v.holds<string>()) SAME(plain(v.get<string>()), want); else SAME(0, 1); break; }
			case 3: { vector<V> v; for(std::size_t i{0}, k{r.range(1, 4)}; i < k; ++i) v.push_back(V{texts(r, r.range(1, 4))}); auto & all{v[0].get<vector<string>>()}; const auto want{plain(all[0])}; n = v.size(); v.insert(v.begin(), all[0]); if(v[0].holds<string>()) SAME(plain(v[0].get<string>()), want); else SAME(0, 1); break; }
			case 4: { auto v{lists(r, r.range(1, 6))}; const auto before{plain(v)}; const auto k{r.below(v.size())}; n = k; v.assign(r.range(1, 9), v[k]); for(auto & x : v) SAME(plain(x), before[k]); break; }
			case 5: { auto v{lists(r, r.range(1, 6))}; const auto before{plain(v)}; const auto i{r.below(v.size() + 1)}, j{i + r.below(v.size() - i + 1)}; n = j - i; v.assign(v.begin() + static_cast<std::ptrdiff_t>(i), v.begin() + static_cast<std::ptrdiff_t>(j)); SAME(v.size(), j - i); for(std::size_t q{0}; q < v.size() && !mon::poisoned; ++q) SAME(plain(v[q]), before[i + q]); break; }
			case 6: { auto v{lists(r, r.range(1, 5))}; auto want{plain(v)}; const auto i{r.below(v.size() + 1)}, j{r.below(v.size())}, k{r.below(8)}; n = k; if(r.chance(1, 2)) v.reserve(20); { heap::Out o; const auto x{want[j]}; want.insert(want.begin() + static_cast<std::ptrdiff_t>(i), k, x); } v.insert(v.begin() + static_cast<std::ptrdiff_t>(i), k, v[j]); SAME(plain(v), want); break; }
			case 7: { auto v{lists(r, r.range(1, 5))}; auto want{plain(v)}; const auto j{r.below(v.size())}; n = v.size(); if(r.chance(1, 2)) v.reserve(20); { heap::Out o; const auto x{want[j]}; want.push_back(x); want.resize(want.size() + 4, x); } v.push_back(v[j]); v.resize(v.size() + 4, v[j]); SAME(plain(v), want); break; }
			case 8: { ptl::optional<vector<string>> o{texts(r, r.range(1, 5))}; const auto want{plain(*o)}; n = want.size(); o = *o; if(o) SAME(plain(*o), want); else SAME(0, 1); const vector<string> & c{*o}; o = c; SAME(plain(*o), want); break; }
			case 9: { vector<vector<string>> v{lists(r, r.range(1, 4))}; const auto k{r.below(v.size())}; auto want{plain(v[k])}; n = k; if(r.chance(1, 2)) { v[k] = v[0]; want = plain(v[0]); } v = vector<vector<string>>(v.begin() + static_cast<std::ptrdiff_t>(k), v.begin() + static_cast<std::ptrdiff_t>(k) + 1); SAME(v.size(), 1u); if(!mon::poisoned) SAME(plain(v[0]), want); break; }
			default: { auto v{texts(r, r.range(2, 6))}; const auto i{r.below(v.size())}, p{r.below(v[i].size() + 1)}, q{r.below(v[i].size() - p + 1)}; n = q; const auto want{[&] { heap::Out o; return plain(v[i]).substr(p, q); }()}; const std::string_view part{v[i].data() + p, q}; switch(r.below(3)) { case 0: v[i] = part; break; case 1: v[i].assign(part); break; default: v[i].replace(v[i].begin(), v[i].end(), part); } SAME(plain(v[i]), want); break; }
		}
		heap::Out o; mon::Hash h; h.add(what); h.add(n); mon::state(h.h);
	}
	SCENARIO("own part", "C28", own_part, 3);
	REQUIRE("C28", "containers replaced by a part of themselves"); REQUIRE("C28", "deep copies"); REQUIRE("C28", "deep moves"); REQUIRE("C28", "operations ended by an exception");
	#endif
}
