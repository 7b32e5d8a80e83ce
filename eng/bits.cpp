// bitset against a plain vector of bits: values, proxies, shifts, text input and output, hashing, checked access.
#include <bitset>
#include <functional>
#include <iomanip>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <utility>
#include <vector>
#include <ptl/bitset.hpp>
#include "../rt/heap.hpp"

struct TagBool; struct TagOther;
namespace ptl { template<> inline constexpr bool enable_bitset_operator_bool<TagBool>{true}; }

namespace {
	using namespace mon; using std::get;
	constexpr auto big{std::numeric_limits<std::size_t>::max()};
	template<std::size_t N, typename Tag>
	struct Run {
		using B = ptl::bitset<N, Tag>; using M = std::vector<bool>;
		struct alignas(16) Box { unsigned char before[16]; B b; unsigned char after[16]; M m; Box() : m(N) { std::memset(before, 0xA5, 16); std::memset(after, 0xA5, 16); } };
		Rng & r; std::vector<std::unique_ptr<Box>> pool; const char * last{"construction"};
		explicit Run(Rng & r) : r{r} { for(int i{0}; i < 3; ++i) pool.push_back(std::make_unique<Box>()); }

		static std::string text(const M & m) { std::string s; for(std::size_t i{N}; i-- > 0;) s += m[i] ? '1' : '0'; return s; }
		static std::string text(const B & b) { std::string s; for(std::size_t i{N}; i-- > 0;) s += b[i] ? '1' : '0'; return s; }
		std::size_t idx() { switch(r.below(4)) { case 0: return 0; case 1: return N - 1; default: return r.below(N); } }
		std::size_t beyond() { switch(r.below(8)) { case 0: return N; case 1: return N + 1; case 2: return (N + 7) / 8 * 8; case 3: return big - r.below(70); case 4: return (std::size_t{1} << 32) + r.below(N + 1); case 5: return (std::size_t{1} << 63) + r.below(N + 1); case 6: return N + r.below(1000); default: return (std::size_t{1} << 31) + r.below(N + 2); } }
		M random_bits() { M m(N); const auto k{r.below(5)}; for(std::size_t i{0}; i < N; ++i) m[i] = k == 0 ? true : k == 1 ? false : k == 2 ? r.chance(1, 12) : k == 3 ? !r.chance(1, 12) : r.chance(1, 2); return m; }
		static B from(const M & m) { B b; for(std::size_t i{0}; i < N; ++i) if(m[i]) b.set(i); return b; }

		bool agrees(const B & b, const M & m) { for(std::size_t i{0}; i < N; ++i) if(static_cast<bool>(b[i]) != m[i]) return false; return true; }
		void check_box(Box & x, const char * op) {
			if(poisoned) return;
			const B & c{x.b}; B & b{x.b}; const M & m{x.m};
			std::size_t n{0};
			for(std::size_t i{0}; i < N; ++i) {
				n += m[i];
				CHECK("C13", "bits", c[i] == m[i], "after %s: bit %zu of %zu is %d, expected %d", op, i, N, static_cast<int>(c[i]), static_cast<int>(m[i]));
				CHECK("C13", "access", c.test(i) == m[i] && c.at(i) == m[i] && static_cast<bool>(b[i]) == m[i] && static_cast<bool>(b.at(i)) == m[i] && (~b[i]) == !m[i] && b.test(i) == m[i], "after %s: the ways to read bit %zu of %zu disagree", op, i, N);
				if(mon::stop()) return;
			}
			CHECK("C13", "counts", SUT(c.count()) == n, "after %s: count() of %zu bits is %zu, expected %zu", op, N, c.count(), n);
			CHECK("C13", "counts", SUT(c.any()) == (n > 0) && SUT(c.none()) == (n == 0) && SUT(c.all()) == (n == N), "after %s: any/none/all of %zu bits (%zu set) are %d/%d/%d", op, N, n, c.any(), c.none(), c.all());
			CHECK("C13", "size", c.size() == N && c.max_size() == N && c.empty() == (N == 0), "size of a bitset<%zu> wrong", N);
			const B fresh{from(m)};
			CHECK("C13", "equality", SUT(c == fresh) && SUT(fresh == c) && !SUT(c != fresh) && !SUT(fresh != c), "after %s: a bitset<%zu> differs from an equal one", op, N);
			const B inv{SUT(~c)};
			M im(N); for(std::size_t i{0}; i < N; ++i) im[i] = !m[i];
			CHECK("C13", "complement", agrees(inv, im) && inv.count() == N - n && inv == from(im) && (N == 0 || inv != c), "after %s: the complement of a bitset<%zu> is wrong", op, N);
			if constexpr(N > 0) CHECK("C13", "get", get<0>(c) == m[0] && get<N - 1>(c) == m[N - 1] && get<N / 2>(c) == m[N / 2], "after %s: get of a bitset<%zu> is wrong", op, N);
			if constexpr(N == 3) { const auto [p, q, s]{c}; CHECK("C13", "bindings", p == m[0] && q == m[1] && s == m[2], "structured bindings of a bitset are wrong"); HIT("structured bindings"); }
			if constexpr(std::is_same_v<Tag, TagBool>) { CHECK("C13", "bool", static_cast<bool>(c) == (n > 0), "conversion to bool is wrong"); HIT("operator bool"); }
			for(auto & o : pool) CHECK("C13", "equality", (c == o->b) == (m == o->m) && (c != o->b) == (m != o->m), "after %s: equality of two bitset<%zu> is wrong", op, N);
			for(int i{0}; i < 16; ++i) CHECK("C13", "outside", x.before[i] == 0xA5 && x.after[i] == 0xA5, "%s on a bitset<%zu> wrote outside the object", op, N);
			CHECK("C15", "equal-hash", std::hash<B>{}(c) == std::hash<B>{}(fresh), "after %s: equal bitset<%zu> have different hashes", op, N);
			Hash h; h.add(op, std::strlen(op)); h.add(N); for(std::size_t i{0}; i < N; ++i) h.add(m[i]); state(h.h);
		}
		std::size_t shift() { switch(r.below(10)) { case 0: return 0; case 1: return N; case 2: return N ? N - 1 : 0; case 3: return N + 1; case 4: return 8 * r.below(N / 8 + 2); case 5: return big - r.below(3); case 6: return (std::size_t{1} << 32) * r.range(1, 9); case 7: return 64; default: return r.below(N + 2); } }
		static M left(const M & m, std::size_t k) { M o(N); for(std::size_t i{0}; i < N; ++i) if(k <= i && m[i - k]) o[i] = true; return o; }
		static M right(const M & m, std::size_t k) { M o(N); for(std::size_t i{0}; i < N; ++i) if(k < N && i + k < N && m[i + k]) o[i] = true; return o; }
		void result(const char * op, const B & b, const M & m) { CHECK("C13", "result", agrees(b, m) && b == from(m), "%s of bitset<%zu> yields %s, expected %s", op, N, text(b).c_str(), text(m).c_str()); }

		void step() {
			Box & x{*pool[r.below(3)]}; Box & y{*pool[r.below(3)]};
			B & b{x.b}; M & m{x.m}; const M om{y.m};
			switch(r.below(24)) {
				case 0: case 1: { last = "construction from an integer"; std::size_t v{r.chance(1, 4) ? big : r.next() >> r.below(64)}; if(r.chance(1, 4)) v = std::size_t{1} << r.below(64); OP("construct from %zx", v); B t(v); M w(N); for(std::size_t i{0}; i < N && i < 64; ++i) w[i] = (v >> i) & 1; result(last, t, w); b = t; m = w; HIT("from integer"); break; }
				case 2: last = "set()"; OP("set()"); CHECK("C13", "returned", &SUT(b.set()) == &b, "set() returns another object"); m.assign(N, true); break;
				case 3: last = "reset()"; OP("reset()"); CHECK("C13", "returned", &SUT(b.reset()) == &b, "reset() returns another object"); m.assign(N, false); break;
				case 4: last = "flip()"; OP("flip()"); CHECK("C13", "returned", &SUT(b.flip()) == &b, "flip() returns another object"); m.flip(); break;
				case 5: case 6: if(N) { last = "set(index)"; const auto i{idx()}; const bool v{r.chance(1, 2)}; OP("set(%zu, %d)", i, v); if(v && r.chance(1, 2)) SUT(b.set(i)); else CHECK("C13", "returned", &SUT(b.set(i, v)) == &b, "set returns another object"); m[i] = v; } break;
				case 7: if(N) { last = "reset(index)"; const auto i{idx()}; OP("reset(%zu)", i); SUT(b.reset(i)); m[i] = false; } break;
				case 8: if(N) { last = "flip(index)"; const auto i{idx()}; OP("flip(%zu)", i); SUT(b.flip(i)); m[i] = !m[i]; } break;
				case 9: case 10: { last = "bitwise operator"; const auto k{r.below(3)}; const bool in{r.chance(1, 2)}; OP("%s%s%s", k == 0 ? "&" : k == 1 ? "|" : "^", in ? "=" : "", &x == &y ? " with itself" : ""); M w(N); for(std::size_t i{0}; i < N; ++i) w[i] = k == 0 ? m[i] && om[i] : k == 1 ? m[i] || om[i] : m[i] != om[i];
					if(in) { B & t{k == 0 ? SUT(b &= y.b) : k == 1 ? SUT(b |= y.b) : SUT(b ^= y.b)}; CHECK("C13", "returned", &t == &b, "a compound operator returns another object"); m = w; } else result(last, k == 0 ? SUT(b & y.b) : k == 1 ? SUT(b | y.b) : SUT(b ^ y.b), w); HIT("bitwise"); break; }
				case 11: case 12: { last = "<<"; const auto k{shift()}; const bool in{r.chance(2, 3)}; OP("<<%s %zu", in ? "=" : "", k); const auto w{left(m, k)}; if(in) { CHECK("C13", "returned", &SUT(b <<= k) == &b, "<<= returns another object"); m = w; } else result("<<", SUT(b << k), w); if(k >= N) HIT("shift everything out"); HIT("shift left"); break; }
				case 13: case 14: { last = ">>"; const auto k{shift()}; const bool in{r.chance(2, 3)}; OP(">>%s %zu", in ? "=" : "", k); const auto w{right(m, k)}; if(in) { CHECK("C13", "returned", &SUT(b >>= k) == &b, ">>= returns another object"); m = w; } else result(">>", SUT(b >> k), w); HIT("shift right"); break; }
				case 15: case 16: if(N) { last = "assignment through a proxy"; const auto i{idx()}, j{idx()}; const auto k{r.below(6)}; OP("proxy %zu <- %zu kind %zu%s", i, j, k, &x == &y ? " same" : "");
					switch(k) {
						case 0: SUT(b[i] = true); m[i] = true; break; case 1: SUT(b.at(i) = false); m[i] = false; break;
						case 2: { auto p{b[i]}; auto q{y.b[j]}; auto & z{SUT(p = q)}; CHECK("C13", "returned", &z == &p, "proxy assignment returns another proxy"); m[i] = om[j]; break; } // copies the bit
						case 3: SUT(b[i] = y.b[j]); m[i] = om[j]; HIT("bit to bit"); break;
						case 4: { auto p{b[i]}; auto q{p}; SUT(q = !om[j]); CHECK("C13", "proxy", static_cast<bool>(p) == !om[j], "two proxies of one bit disagree"); m[i] = !om[j]; break; }
						default: { auto p{b[i]}; SUT(p.flip()); m[i] = !m[i]; }
					} } break;
				case 17: case 18: case 19: if(N) { last = "swap of proxies"; const auto i{idx()}, j{r.chance(1, 3) ? i : idx()}; const auto k{r.below(3)}; OP("swap bits %zu and %zu%s", i, j, &x == &y ? " of one bitset" : ""); auto p{b[i]}; auto q{y.b[j]};
					if(k == 0) SUT(p.swap(q)); else if(k == 1) SUT(swap(p, q)); else SUT(swap(b[i], y.b[j]));
					const bool t{m[i]}; m[i] = y.m[j]; y.m[j] = t; if(&x != &y) HIT("swap across bitsets"); if(&x != &y && i == j) HIT("swap equal positions across bitsets"); } break;
				case 20: { last = "swap"; OP("swap%s", &x == &y ? " self" : ""); if(r.chance(1, 2)) SUT(b.swap(y.b)); else { using std::swap; SUT(swap(b, y.b)); } std::swap(x.m, y.m); break; }
				case 21: { last = "assignment"; OP("assign%s", &x == &y ? " self" : ""); B t{y.b}; result("copy", t, om); if(r.chance(1, 2)) SUT(b = y.b); else b = std::move(t); m = om; break; }
				case 22: { last = "independence of a copy"; OP("modify a copy"); B t{b}; t.flip(); if(N) t.set(idx()); break; }
				default: { last = "refused access"; const auto i{beyond()}; OP("checked access to %zu", i); refused(x, i); }
			}
			if(!poisoned) for(auto & o : pool) check_box(*o, last);
		}
		template<typename F> void must_throw(const char * what, std::size_t i, F && f) {
			bool ok{false};
			try { f(); } catch(const std::out_of_range &) { ok = true; } catch(...) {}
			CHECK("C16", "bitset-not-refused", ok, "%s(%zu) of a bitset<%zu> does not throw std::out_of_range", what, i, N);
		}
		void refused(Box & x, std::size_t i) {
			B & b{x.b}; const B & c{b};
			const auto before{text(b)};
			const M was{x.m};
			must_throw("at", i, [&] { SUT(c.at(i)); }); must_throw("at", i, [&] { (void)SUT(b.at(i)); }); must_throw("at", i, [&] { SUT(b.at(i) = true); }); must_throw("test", i, [&] { SUT(c.test(i)); }); must_throw("set", i, [&] { SUT(b.set(i)); }); must_throw("set", i, [&] { SUT(b.set(i, true)); }); must_throw("set", i, [&] { SUT(b.set(i, false)); }); must_throw("reset", i, [&] { SUT(b.reset(i)); }); must_throw("flip", i, [&] { SUT(b.flip(i)); });
			const B fresh{from(was)};
			CHECK("C16", "bitset-changed", text(b) == before && b == fresh && b.count() == fresh.count(), "a refused access changed a bitset<%zu>", N);
			HIT("bitset refusals");
		}
		void history() { const auto n{r.range(4, N > 300 ? 6 : N > 100 ? 10 : 25)}; for(auto & o : pool) check_box(*o, last); for(std::size_t i{0}; i < n && !poisoned; ++i) step(); }

		void access() { // C16
			Box & x{*pool[0]};
			for(int k{0}; k < 6 && !poisoned; ++k) {
				x.m = random_bits(); x.b = from(x.m);
				OP("bitset<%zu>", N);
				for(int j{0}; j < 6; ++j) { const auto i{beyond()}; refused(x, i); Hash h; h.add(N); h.add(i); state(h.h); }
				if(N) for(int j{0}; j < 6 && !poisoned; ++j) {
					const auto i{idx()}; const B & c{x.b};
					CHECK("C16", "bitset-element", SUT(c.at(i)) == x.m[i] && static_cast<bool>(SUT(x.b.at(i))) == x.m[i] && SUT(c.test(i)) == x.m[i], "at/test(%zu) of a bitset<%zu> yield another bit", i, N);
					switch(r.below(5)) { case 0: SUT(x.b.set(i)); x.m[i] = true; break; case 1: SUT(x.b.set(i, false)); x.m[i] = false; break; case 2: SUT(x.b.reset(i)); x.m[i] = false; break; case 3: SUT(x.b.flip(i)); x.m[i] = !x.m[i]; break; default: SUT(x.b.at(i) = !x.m[i]); x.m[i] = !x.m[i]; }
					CHECK("C16", "bitset-other", agrees(x.b, x.m) && x.b == from(x.m), "a checked change of bit %zu of a bitset<%zu> changed other bits", i, N);
					HIT("bitset elements");
				}
			}
		}
		void hashing() { // C15
			const std::hash<B> h{};
			for(int k{0}; k < 3 && !poisoned; ++k) {
				M m{random_bits()}; B b{from(m)};
				OP("hash of a bitset<%zu>", N);
				const auto base{SUT(h(b))};
				B t; // another history
				t.set(); t ^= B{}; t.flip(); t |= b; t <<= 0; if(N) { t.flip(N - 1); t.flip(N - 1); } t = ~~t;
				CHECK("C15", "equal-hash", SUT(h(t)) == base && SUT(h(t)) == SUT(h(B{b})), "equal bitset<%zu> have different hashes", N);
				B u; u.set(); u &= b; CHECK("C15", "equal-hash", SUT(h(u)) == base, "equal bitset<%zu> have different hashes", N);
				B v{from(left(m, 1))}; if(N && !m[N - 1]) { v >>= 1; CHECK("C15", "equal-hash", SUT(h(v)) == base, "equal bitset<%zu> (after shifts) have different hashes", N); } 
				std::istringstream is{text(m)}; B w; w.set(); if(N && is >> w) CHECK("C15", "equal-hash", SUT(h(w)) == base, "equal bitset<%zu> (after input) have different hashes", N);
				for(std::size_t i{0}; i < N && !poisoned; ++i) { B c{b}; c.flip(i); CHECK("C15", "insensitive", SUT(h(c)) != base, "changing bit %zu of a bitset<%zu> does not change its hash", i, N); HIT("bit changes hashed"); }
				if(N > 1) { const auto i{r.below(N)}, j{r.below(N)}; if(m[i] != m[j]) { B c{b}; c.flip(i); c.flip(j); CHECK("C15", "insensitive", SUT(h(c)) != base, "exchanging bits %zu and %zu of a bitset<%zu> does not change its hash", i, j, N); } }
				Hash s; s.add(N); for(auto x : m) s.add(x); state(s.h);
			}
		}

		// C14
		struct Drip : std::streambuf { // hands out one character at a time
			const std::string & s; std::size_t pos{0}; char c{0}; bool chunked;
			explicit Drip(const std::string & s, bool chunked) : s{s}, chunked{chunked} { if(!chunked) setg(const_cast<char *>(s.data()), const_cast<char *>(s.data()), const_cast<char *>(s.data() + s.size())); }
			int_type underflow() override { if(!chunked || pos >= s.size()) return traits_type::eof(); c = s[pos++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
		};
		void output() {
			const M m{random_bits()}; const B b{from(m)};
			std::ostringstream os;
			switch(r.below(4)) { case 0: os << std::hex << std::showbase << std::uppercase; break; case 1: os << std::boolalpha << std::showpos; break; case 2: os << std::setfill('#') << std::left << std::setprecision(1) << std::fixed; break; default:; }
			OP("write a bitset<%zu>", N);
			const auto & res{os << "<" << b << ">"};
			CHECK("C14", "output", &res == &os && os.good() && os.str() == "<" + text(m) + ">", "a bitset<%zu> is written as %s, expected %s", N, os.str().c_str(), text(m).c_str());
			std::istringstream is{os.str().substr(1)};
			B back{random_from()};
			is >> back;
			if(N) CHECK("C14", "round-trip", !is.fail() && agrees(back, m) && back == b && back.count() == b.count(), "reading back the text of a bitset<%zu> yields %s, expected %s", N, text(back).c_str(), text(m).c_str());
			char c{0}; is.clear(); is.get(c);
			CHECK("C14", "round-trip", c == '>', "reading a bitset<%zu> consumed more than its %zu digits", N, N);
			std::ostringstream dead; dead.setstate(std::ios::badbit); dead << b; CHECK("C14", "output", dead.str().empty() && dead.fail(), "a bitset was written to a failed stream");
			HIT("round trips"); Hash h; h.add(N); for(auto x : m) h.add(x); state(h.h);
		}
		B random_from() { return from(random_bits()); }
		void input() {
			for(int rep{0}; rep < 4 && !poisoned; ++rep) {
				std::string s; const auto spaces{r.chance(1, 2) ? 0 : r.range(1, 4)};
				for(std::size_t i{0}; i < spaces; ++i) s += " \t\n\v\f\r"[r.below(6)];
				std::size_t digits{r.chance(1, 6) ? 0 : r.chance(1, 3) ? N : r.chance(1, 3) ? N + r.range(1, 5) : r.below(N + 1)};
				std::string d; const auto k{r.below(4)}; for(std::size_t i{0}; i < digits; ++i) d += k == 0 ? '0' : k == 1 ? '1' : r.chance(1, 2) ? '1' : '0';
				s += d;
				if(r.chance(2, 3)) { static const char odd[]{'2', '/', ' ', '\n', 'x', '\0', -1, '-', '+', '1', '0', '.'}; const auto n{r.range(1, 5)}; s += odd[r.below(9)]; for(std::size_t i{0}; i < n; ++i) s += odd[r.below(12)]; }
				const bool skip{r.chance(3, 4)};
				std::size_t at{0};
				if(skip) while(at < s.size() && std::strchr(" \t\n\v\f\r", s[at]) && s[at]) ++at;
				std::size_t n{0}; while(n < N && at + n < s.size() && (s[at + n] == '0' || s[at + n] == '1')) ++n;
				M was{random_bits()}, want{was};
				if(n) { want.assign(N, false); for(std::size_t i{0}; i < n; ++i) want[i] = s[at + n - 1 - i] == '1'; }
				B b{from(was)};
				Drip buf{s, r.chance(1, 2)}; std::istream is{&buf};
				if(!skip) is >> std::noskipws;
				const bool ex{r.chance(1, 4)}; if(ex) is.exceptions(std::ios::failbit);
				OP("read a bitset<%zu> from %zu spaces, %zu digits, %zu characters in all%s", N, spaces, digits, s.size(), skip ? "" : ", noskipws");
				bool threw{false}; bool same{true};
				try { same = &(is >> b) == &is; } catch(const std::ios_base::failure &) { threw = true; }
				is.exceptions(std::ios::goodbit);
				if(!N) { CHECK("C14", "value", b == from(want), "reading changed a bitset<0>"); continue; }
				CHECK("C14", "failbit", same && is.fail() == (n == 0) && !is.bad() && threw == (ex && n == 0), "reading a bitset<%zu> from %zu digits: failbit is %d", N, n, is.fail());
				CHECK("C14", "value", agrees(b, want) && b == from(want) && b.count() == from(want).count(), "reading a bitset<%zu> from %zu digits yields %s, expected %s", N, n, text(b).c_str(), text(want).c_str());
				is.clear(); std::string rest; char c; while(is.get(c)) rest += c;
				const auto left{n ? s.substr(at + n) : s.substr(at)};
				CHECK("C14", "consumed", rest == left, "reading a bitset<%zu> left %zu characters unread, expected %zu", N, rest.size(), left.size());
				if(n == 0) HIT("no digit"); else if(n < N) HIT("short text"); else if(digits > N) HIT("long text"); else HIT("exact text");
				if(n && at + n == s.size()) HIT("digits at end of input");
				Hash h; h.add(N); h.add(s.data(), s.size()); h.add(skip); state(h.h);
			}
			// several values in one stream, and a stream that has already failed
			std::string all; std::vector<M> ms; const auto cnt{r.range(2, 4)};
			for(std::size_t i{0}; i < cnt; ++i) { ms.push_back(random_bits()); all += text(ms.back()); if(r.chance(1, 2)) all += ' '; }
			std::istringstream is{all};
			if(N) for(auto & m : ms) { B b{random_from()}; is >> b; CHECK("C14", "sequence", !is.fail() && b == from(m), "reading consecutive bitset<%zu> yields %s, expected %s", N, text(b).c_str(), text(m).c_str()); HIT("consecutive values"); }
			std::istringstream bad{all}; bad.setstate(std::ios::failbit); const M was{random_bits()}; B b{from(was)}; bad >> b;
			CHECK("C14", "value", b == from(was) && bad.fail(), "reading from a failed stream changed a bitset<%zu>", N);
			std::istringstream none{""}; none >> b;
			CHECK("C14", "value", b == from(was) && (N == 0 || none.fail()), "reading from an empty stream changed a bitset<%zu> or succeeded", N);
		}
		void streams() { for(int i{0}; i < 3 && !poisoned; ++i) { output(); input(); } }
	};
	#if PART == 0
	#define SIZES S(0) S(8) S(17) S(63) S(1001)
	#define NAME(x) x " (0, 8, 17, 63, 1001)"
	#elif PART == 1
	#define SIZES S(1) S(9) S(31) S(64) S(100)
	#define NAME(x) x " (1, 9, 31, 64, 100)"
	#elif PART == 2
	#define SIZES S(3) S(15) S(32) S(65) S(128)
	#define NAME(x) x " (3, 15, 32, 65, 128)"
	#else
	#define SIZES S(2) S(7) S(16) S(33) S(257)
	#define NAME(x) x " (2, 7, 16, 33, 257)"
	#endif
	constexpr std::size_t sizes[]{
		#define S(n) n,
		SIZES
		#undef S
	};
	template<typename F> void pick(Rng & r, F && f) {
		switch(sizes[r.below(5)]) {
			#define S(n) case n: f(std::integral_constant<std::size_t, n>{}); break;
			SIZES
			#undef S
		}
	}
	#if WHAT == 13
	void history(Rng & r) { pick(r, [&](auto n) { if constexpr(n.value < 20) { if(r.chance(1, 3)) { Run<n.value, TagBool> run{r}; run.history(); return; } } Run<n.value, ptl::bitset_default_tag> run{r}; run.history(); }); }
	SCENARIO(NAME("bitset history"), "C13", history, 1);
	#elif WHAT == 14
	void streams(Rng & r) { pick(r, [&](auto n) { Run<n.value, ptl::bitset_default_tag> run{r}; run.streams(); }); }
	SCENARIO(NAME("bitset text"), "C14", streams, 1);
	#elif WHAT == 15
	void hashing(Rng & r) { pick(r, [&](auto n) { Run<n.value, ptl::bitset_default_tag> run{r}; run.hashing(); }); }
	SCENARIO(NAME("bitset hash"), "C15", hashing, 1);
	#else
	void access(Rng & r) { pick(r, [&](auto n) { Run<n.value, ptl::bitset_default_tag> run{r}; run.access(); }); }
	SCENARIO(NAME("bitset checked access"), "C16", access, 1);
	#endif
	REQUIRE("C13", "from integer"); REQUIRE("C13", "shift everything out"); REQUIRE("C13", "shift left"); REQUIRE("C13", "shift right"); REQUIRE("C13", "bit to bit"); REQUIRE("C13", "swap across bitsets"); REQUIRE("C13", "swap equal positions across bitsets"); REQUIRE("C13", "operator bool"); REQUIRE("C13", "structured bindings");
	REQUIRE("C14", "round trips"); REQUIRE("C14", "no digit"); REQUIRE("C14", "short text"); REQUIRE("C14", "long text"); REQUIRE("C14", "exact text"); REQUIRE("C14", "digits at end of input"); REQUIRE("C14", "consecutive values");
	REQUIRE("C15", "bit changes hashed"); REQUIRE("C16", "bitset refusals"); REQUIRE("C16", "bitset elements");
}
