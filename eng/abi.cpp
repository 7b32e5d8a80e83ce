// Objects handed around between separately compiled modules (C23) and a hand-written producer/consumer of the published layout (C22).
#define WORLD_MODEL_ONLY
#include <cstdlib>
#include <dlfcn.h>
#include <memory>
#include <unordered_map>
#include "../rt/golden.hpp"
#include "../rt/mon.hpp"

namespace {
	// the host keeps every module's heap: blocks with red zones, owner and kind; freed blocks are poisoned and never reused within a case
	struct Block { int mod, kind; std::size_t n, align; unsigned char * raw; bool live; };
	std::unordered_map<const void *, Block> blocks;
	std::size_t live_blocks{0};
	std::vector<const void *> order;
	constexpr std::size_t zone{64};
	const char * who(int mod);
	const char * kinds[]{"malloc", "new", "new[]", "aligned new", "hand"};
	void * host_alloc(int mod, int kind, std::size_t n, std::size_t align, bool zero) {
		if(n > (std::size_t{1} << 32)) return nullptr;
		if(align < 16) align = 16;
		auto raw{static_cast<unsigned char *>(std::malloc(n + 2 * zone + align))};
		if(!raw) mon::harness_error("out of memory");
		auto p{reinterpret_cast<unsigned char *>((reinterpret_cast<std::uintptr_t>(raw) + zone + align - 1) / align * align)};
		std::memset(raw, 0xFA, static_cast<std::size_t>(p - raw)); std::memset(p, zero ? 0 : 0xC9, n); std::memset(p + n, 0xFB, zone);
		blocks[p] = {mod, kind, n, align, raw, true}; order.push_back(p); ++live_blocks;
		HIT("blocks allocated");
		return p;
	}
	bool zones(const void * p, const Block & b) {
		auto c{static_cast<const unsigned char *>(p)};
		for(auto x{b.raw}; x < c; ++x) if(*x != 0xFA) return false;
		for(std::size_t i{0}; i < zone; ++i) if(c[b.n + i] != 0xFB) return false;
		return true;
	}
	void host_free(int mod, int kind, void * p) {
		const auto it{blocks.find(p)};
		if(it == blocks.end()) { mon::violate(mon::prop, "wild-free", "%s frees %p, which no module allocated", who(mod), p); return; }
		auto & b{it->second};
		if(!b.live) { mon::violate(mon::prop, "double-free", "%s frees a block of %zu bytes of %s a second time", who(mod), b.n, who(b.mod)); return; }
		CHECK(mon::prop, "foreign-free", b.mod == mod, "a block of %zu bytes allocated by %s is freed by %s", b.n, who(b.mod), who(mod));
		CHECK(mon::prop, "mismatched-free", b.kind == kind, "a block of %zu bytes allocated by %s with %s is freed as %s", b.n, who(mod), kinds[b.kind], kinds[kind]);
		CHECK(mon::prop, "overrun", zones(p, b), "memory outside a block of %zu bytes of %s was written", b.n, who(mod));
		b.live = false; --live_blocks; std::memset(p, 0xDD, b.n);
		HIT("blocks freed");
	}
	std::size_t host_usable(void * p) { const auto it{blocks.find(p)}; return it == blocks.end() ? 0 : it->second.n; }
	void heap_check(bool final) {
		for(auto p : order) { auto & b{blocks[p]}; if(mon::poisoned) break; CHECK(mon::prop, "overrun", zones(p, b), "memory outside a block of %zu bytes of %s was written", b.n, who(b.mod)); if(!b.live) { auto c{static_cast<const unsigned char *>(p)}; bool ok{true}; for(std::size_t i{0}; i < b.n; ++i) ok &= c[i] == 0xDD; CHECK(mon::prop, "use-after-free", ok, "a block of %zu bytes of %s was written after it had been freed", b.n, who(b.mod)); } }
		if(final) { CHECK(mon::prop, "leak", live_blocks == 0, "%zu blocks are never freed", live_blocks); for(auto p : order) std::free(blocks[p].raw); blocks.clear(); order.clear(); live_blocks = 0; }
	}
	constexpr int hand_mod{100};
	std::vector<const world::ModApi *> mods; std::vector<std::string> names;
	const char * who(int mod) { return mod == hand_mod ? "the hand-written producer" : mod >= 0 && static_cast<std::size_t>(mod) < names.size() ? names[static_cast<std::size_t>(mod)].c_str() : "?"; }

	using namespace world;
	Ops model[64]; golden::Hand hands[64]; std::size_t n_types{0};
	char text_data[96]; int int_data[40];
	template<int Part, int Q, typename D> void reg(const char * name) { if constexpr(Part == Q) { model[n_types] = ops<M, D>(name); hands[n_types] = golden::hand<D>(); ++n_types; } }
	void load_modules() {
		if(!mods.empty()) return;
		for(std::size_t i{0}; i < sizeof text_data; ++i) text_data[i] = static_cast<char>(i * 37 + (i % 5 == 0 ? 0 : 11));
		for(int i{0}; i < 40; ++i) int_data[i] = i * i - 300;
		ctx = {text_data, sizeof text_data, int_data, 40};
		#define X(p, ...) reg<0, p, __VA_ARGS__>(#__VA_ARGS__);
		WORLD_TYPES(X)
		#undef X
		#define X(p, ...) reg<1, p, __VA_ARGS__>(#__VA_ARGS__);
		WORLD_TYPES(X)
		#undef X
		#define X(p, ...) reg<2, p, __VA_ARGS__>(#__VA_ARGS__);
		WORLD_TYPES(X)
		#undef X
		const char * list{std::getenv("MODS")}; if(!list) mon::harness_error("no modules");
		std::string s{list}, cur;
		static const HostFns fns{host_alloc, host_free, host_usable};
		for(char c : s + ":") {
			if(c != ':') { cur += c; continue; }
			if(cur.empty()) continue;
			void * h{dlopen(cur.c_str(), RTLD_NOW | RTLD_LOCAL)}; if(!h) mon::harness_error("dlopen: %s", dlerror());
			auto f{reinterpret_cast<const ModApi * (*)()>(dlsym(h, "mod_api"))}; if(!f) mon::harness_error("no mod_api in %s", cur.c_str());
			const auto api{f()};
			if(api->n_ops != n_types) mon::harness_error("module with %zu types, expected %zu", api->n_ops, n_types);
			for(std::size_t i{0}; i < n_types; ++i) if(std::strcmp(api->ops[i].name, model[i].name)) mon::harness_error("type order");
			api->init(&fns, static_cast<int>(mods.size()), &ctx);
			mods.push_back(api); names.push_back("module " + cur.substr(cur.rfind('/') + 1)); cur.clear();
		}
	}
	struct Buf { std::vector<char> c; Out o; Buf() : c(1 << 18), o{c.data(), c.size()} {} void reset() { o.n = 0; o.full = false; } };
	struct Slot { // one object, with its model, in patterned memory
		unsigned char raw[1024]; unsigned char * p; std::size_t n; bool alive{false}; alignas(64) unsigned char m[1024];
		void place(std::size_t size, std::size_t align, mon::Rng & r) { n = size; p = raw + 64 + (align < 8 ? r.below(8) / align * align : 0); const auto a{reinterpret_cast<std::uintptr_t>(p) % align}; if(a) p += align - a; std::memset(raw, 0xE7, sizeof raw); }
		bool intact() const { for(auto q{raw}; q < p; ++q) if(*q != 0xE7) return false; for(auto q{p + n}; q < raw + sizeof raw; ++q) if(*q != 0xE7) return false; return true; }
	};
	void run(mon::Rng & r) {
		load_modules();
		const bool hand{mon::deciding("C22")};
		const auto k{r.below(n_types)};
		const Ops & mo{model[k]}; const auto & hd{hands[k]};
		static Buf want, got;
		auto pick{[&] { return r.below(mods.size()); }};
		std::size_t size{hd.size}, align{hd.align};
		for(std::size_t i{0}; i < mods.size(); ++i) {
			const auto & o{mods[i]->ops[k]};
			if(hand) CHECK("C22", "sizeof", o.size == hd.size && o.align == hd.align, "%s: sizeof %zu, alignof %zu in %s; published: %zu, %zu", o.name, o.size, o.align, who(static_cast<int>(i)), hd.size, hd.align);
			else { CHECK("C23", "sizeof", o.size == mods[0]->ops[k].size && o.align == mods[0]->ops[k].align, "%s: sizeof %zu in %s and %zu in %s", o.name, o.size, who(static_cast<int>(i)), mods[0]->ops[k].size, who(0)); size = o.size; align = o.align; }
		}
		if(mon::poisoned) return;
		Slot slots[3];
		const auto look{[&](Slot & s, const char * op) {
			if(mon::poisoned) return;
			want.reset(); mo.dump(s.m, &want.o);
			const auto m{pick()};
			CHECK(mon::prop, "outside-object", s.intact(), "%s: memory outside the object was written (after %s)", mo.name, op);
			if(hand) {
				got.reset(); golden::bad = false; hd.dump(s.p, &got.o);
				CHECK("C22", "decode", got.o.n == want.o.n && !std::memcmp(got.c.data(), want.c.data(), got.o.n), "after %s, the bytes of %s do not decode to its value: %.*s expected %.*s", op, mo.name, static_cast<int>(got.o.n), got.c.data(), static_cast<int>(want.o.n), want.c.data());
				HIT("objects decoded by hand");
				if(mon::poisoned) return;
			}
			got.reset(); mods[m]->ops[k].dump(s.p, &got.o);
			CHECK(mon::prop, "value", got.o.n == want.o.n && !std::memcmp(got.c.data(), want.c.data(), got.o.n), "after %s, %s read by %s is %.*s expected %.*s", op, mo.name, who(static_cast<int>(m)), static_cast<int>(got.o.n), got.c.data(), static_cast<int>(want.o.n), want.c.data());
			HIT("objects read by modules");
		}};
		const auto make{[&](Slot & s) {
			Rng g{r.next()}; Rng h{g};
			s.place(size, align, r); mo.gen(s.m, &g); s.alive = true;
			const auto i{pick()};
			if(hand && r.chance(1, 2)) { OP("%s made by hand", mo.name); std::memset(s.p, 0xA5, s.n); Rng x{r.next()}; hd.build(s.p, s.m, &x); HIT("objects made by hand"); }
			else { OP("%s made by %s", mo.name, who(static_cast<int>(i))); mods[i]->ops[k].gen(s.p, &h); }
		}};
		const auto drop{[&](Slot & s) {
			const auto i{pick()};
			if(hand && r.chance(1, 3)) { OP("destroyed by hand"); hd.destroy(s.p); HIT("objects destroyed by hand"); } else { OP("destroyed by %s", who(static_cast<int>(i))); mods[i]->ops[k].destroy(s.p); }
			mo.destroy(s.m); s.alive = false;
		}};
		for(auto & s : slots) { make(s); look(s, "construction"); }
		const auto n{r.range(6, 24)};
		for(std::size_t q{0}; q < n && !mon::poisoned; ++q) {
			const auto a{r.below(3)}, b{(a + 1 + r.below(2)) % 3}; const auto i{pick()};
			const auto & o{mods[i]->ops[k]}; Slot & x{slots[a]}, & y{slots[b]};
			const char * op{"an operation"};
			mon::Hash h; h.add(k); h.add(i);
			switch(r.below(12)) {
				case 0: op = "replacement"; drop(x); make(x); break;
				case 1: { op = "copy construction"; drop(x); OP("copy of %zu made by %s", b, who(static_cast<int>(i))); x.place(size, align, r); o.copy(x.p, y.p); mo.copy(x.m, y.m); x.alive = true; HIT("copies across modules"); break; }
				case 2: { op = "move construction"; drop(x); OP("moved from %zu by %s", b, who(static_cast<int>(i))); x.place(size, align, r); o.move(x.p, y.p); mo.move(x.m, y.m); x.alive = true; drop(y); make(y); HIT("moves across modules"); break; }
				default: { op = "an operation"; Rng g{r.next()}; Rng g2{g}; Rng g3{g}; OP("operation %zu of %s by %s on %zu, %zu", g3.below(29), mo.name, who(static_cast<int>(i)), a, b); o.mutate(x.p, y.p, &g); mo.mutate(x.m, y.m, &g2); h.add(g3.below(29)); HIT("operations across modules"); }
			}
			for(auto & s : slots) look(s, op);
			if(!mon::poisoned) { const int c{o.cmp(x.p, y.p)}, d{mo.cmp(x.m, y.m)}; CHECK(mon::prop, "compare", c == d, "%s: comparisons in %s yield %x, expected %x", mo.name, who(static_cast<int>(i)), c, d); }
			want.reset(); mo.dump(x.m, &want.o); h.add(want.o.n / 4); mon::state(h.h);
		}
		if(!mon::poisoned) { heap_check(false); for(auto & s : slots) drop(s); }
		heap_check(true);
	}
}
namespace golden {
	bool bad{false};
	void * take(std::size_t n) { auto p{host_alloc(hand_mod, k_hand, n, 16, false)}; std::memset(p, 0xA5, n); return p; }
	extern "C" void golden_release(void * p) noexcept { host_free(hand_mod, k_hand, p); }
	bool readable(const void * p, std::size_t n) { const auto it{blocks.find(p)}; return it != blocks.end() && it->second.live && it->second.n >= n; }
}
SCENARIO("objects across modules", "C22,C23", run, 1);
REQUIRE("C22", "objects decoded by hand"); REQUIRE("C22", "objects made by hand"); REQUIRE("C22", "objects destroyed by hand"); REQUIRE("C23", "objects read by modules"); REQUIRE("C23", "operations across modules"); REQUIRE("C23", "moves across modules"); REQUIRE("C23", "copies across modules");
