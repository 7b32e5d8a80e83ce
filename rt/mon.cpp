#include "mon.hpp"
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <map>
#include <vector>
#include <set>

namespace mon {
	const char * prop{"?"};
	std::uint64_t case_index{0};
	bool poisoned{false}, tainted{false}, thorough{false};
	int round{0};
	std::atomic<std::uint64_t> n_ops{0}, n_checks{0};

	namespace {
		Counter * counters{nullptr};
		Require * requires_{nullptr};
		Scenario * scenarios{nullptr};
		constexpr std::size_t log_cap{24000};
		struct Shared { // survives any kind of death of this process
			std::uint64_t magic, case_index;
			std::uint32_t len, dropped;
			char scenario[64];
			char text[log_cap];
		};
		Shared fallback{};
		Shared * shared{&fallback};
		std::uint64_t seed{1}, first{0}, count{1}, stride{1};
		const char * out_path{nullptr}, * distinct_path{nullptr};
		std::unordered_set<std::uint64_t> * distinct{nullptr};
		constexpr std::size_t distinct_cap{400000};
		std::vector<std::string> * known{nullptr};
		std::map<std::string, std::string> * known_hit{nullptr};
		std::map<std::string, std::uint64_t> * foreign{nullptr};
		std::uint64_t cases_done{0}, cases_abandoned{0};
		std::vector<std::string> * samples{nullptr};
		std::map<std::string, std::uint64_t> * scen_count{nullptr};
		bool finished{false};

		std::string esc(const std::string & s) {
			std::string r;
			for(unsigned char c : s) {
				if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
				else if(c == '\n') r += "\\n";
				else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
				else r += static_cast<char>(c);
			}
			return r;
		}
		std::string log_text() { return std::string(shared->text, shared->len); }

		void write_result(const char * vprop, const char * vkey, const std::string & vmsg) {
			finished = true;
			FILE * f{out_path ? std::fopen(out_path, "w") : stdout};
			if(!f) _exit(9);
			std::fprintf(f, "{\"cases\":%llu,\"abandoned\":%llu,\"ops\":%llu,\"checks\":%llu", (unsigned long long)cases_done, (unsigned long long)cases_abandoned, (unsigned long long)n_ops.load(), (unsigned long long)n_checks.load());
			std::fprintf(f, ",\"counters\":{");
			std::map<std::string, std::uint64_t> sum;
			for(auto c{counters}; c; c = c->next) sum[c->name] += c->n.load();
			const char * sep{""};
			for(auto & [k, v] : sum) { std::fprintf(f, "%s\"%s\":%llu", sep, esc(k).c_str(), (unsigned long long)v); sep = ","; }
			std::fprintf(f, "},\"scenarios\":{"); sep = "";
			for(auto & [k, v] : *scen_count) { std::fprintf(f, "%s\"%s\":%llu", sep, esc(k).c_str(), (unsigned long long)v); sep = ","; }
			std::fprintf(f, "},\"required\":["); sep = "";
			for(auto r{requires_}; r; r = r->next) if(deciding(r->prop)) { std::fprintf(f, "%s\"%s\"", sep, esc(r->name).c_str()); sep = ","; }
			std::fprintf(f, "],\"foreign\":{"); sep = "";
			for(auto & [k, v] : *foreign) { std::fprintf(f, "%s\"%s\":%llu", sep, esc(k).c_str(), (unsigned long long)v); sep = ","; }
			std::fprintf(f, "},\"known\":{"); sep = "";
			for(auto & [k, v] : *known_hit) { std::fprintf(f, "%s\"%s\":\"%s\"", sep, esc(k).c_str(), esc(v).c_str()); sep = ","; }
			std::fprintf(f, "},\"samples\":["); sep = "";
			for(auto & s : *samples) { std::fprintf(f, "%s\"%s\"", sep, esc(s).c_str()); sep = ","; }
			std::fprintf(f, "],\"distinct\":%llu", (unsigned long long)distinct->size());
			if(vprop) std::fprintf(f, ",\"violation\":{\"property\":\"%s\",\"key\":\"%s\",\"message\":\"%s\",\"case\":%llu,\"scenario\":\"%s\",\"log\":\"%s\"}", vprop, esc(vkey).c_str(), esc(vmsg).c_str(), (unsigned long long)case_index, shared->scenario, esc(log_text()).c_str());
			std::fprintf(f, "}\n");
			if(out_path) std::fclose(f); else std::fflush(f);
			if(distinct_path) if(FILE * d{std::fopen(distinct_path, "wb")}) {
				for(auto h : *distinct) std::fwrite(&h, sizeof h, 1, d);
				std::fclose(d);
			}
		}

		void on_cpu_limit(int) { _exit(77); } // the driver re-runs the case before it calls this a hang

		void reset_timer() {
			itimerval t{};
			const char * e{std::getenv("MON_CPU_S")};
			t.it_value.tv_sec = e ? std::atoi(e) : 60;
			setitimer(ITIMER_VIRTUAL, &t, nullptr);
		}
		bool lists(const char * props, const char * p) {
			const auto n{std::strlen(p)};
			for(auto s{props}; (s = std::strstr(s, p)); s += n) if((s == props || s[-1] == ',') && (s[n] == 0 || s[n] == ',')) return true;
			return false;
		}
	}

	void violate(const char * p, const char * key, const char * fmt, ...) {
		char buf[2000];
		va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
		if(!deciding(p)) {
			++(*foreign)[std::string{p} + "/" + key];
			if(!lists("C06,C07,C08,C12,C16,C20,C24,C25,C27", p)) tainted = true; // those leave the values as they should be: go on
			note("(%s/%s: %s)", p, key, buf);
			return;
		}
		for(auto & k : *known) if(k == key) { (*known_hit)[key] = buf; poisoned = true; return; }
		static std::atomic<bool> once{false};
		if(once.exchange(true)) for(;;) pause();
		write_result(p, key, buf);
		std::fprintf(stderr, "mon: %s violated [%s] in case %llu: %s\n", p, key, (unsigned long long)case_index, buf);
		std::fflush(stderr);
		_exit(3);
	}

	void note(const char * fmt, ...) {
		if(shared->len + 300 > log_cap) { // keep the tail
			const auto keep{log_cap / 2};
			std::memmove(shared->text, shared->text + (shared->len - keep), keep);
			shared->len = keep; ++shared->dropped;
		}
		va_list ap; va_start(ap, fmt);
		const auto n{std::vsnprintf(shared->text + shared->len, 280, fmt, ap)};
		va_end(ap);
		if(n > 0) shared->len += static_cast<std::uint32_t>(n < 280 ? n : 279);
		shared->text[shared->len++] = '\n';
	}

	void harness_error(const char * fmt, ...) {
		va_list ap; va_start(ap, fmt); std::vfprintf(stderr, fmt, ap); va_end(ap);
		std::fputc('\n', stderr);
		std::fflush(stderr);
		_exit(9);
	}

	Counter::Counter(const char * n) noexcept : name{n} {
		static std::atomic_flag lock = ATOMIC_FLAG_INIT;
		while(lock.test_and_set()) {}
		next = counters; counters = this;
		lock.clear();
	}
	Require::Require(const char * p, const char * n) noexcept : prop{p}, name{n}, next{requires_} { requires_ = this; }
	Scenario::Scenario(const char * n, const char * p, void (*f)(Rng &), unsigned w) noexcept : name{n}, props{p}, fn{f}, weight{w}, next{scenarios} { scenarios = this; }
	namespace heap { extern int sut __attribute__((weak)); } // absent without the allocation ledger
	void state(std::uint64_t h) {
		if(distinct->size() >= distinct_cap) return;
		int * const s{&heap::sut}; const int old{s ? *s : 0};
		if(s) *s = 0; // the monitor's own memory is not the business of the ledger
		distinct->insert(h);
		if(s) *s = old;
	}
}

namespace mon { void case_begin() __attribute__((weak)); void case_end() __attribute__((weak)); }

int main(int argc, char ** argv) {
	using namespace mon;
	distinct = new std::unordered_set<std::uint64_t>; known = new std::vector<std::string>; foreign = new std::map<std::string, std::uint64_t>;
	known_hit = new std::map<std::string, std::string>; samples = new std::vector<std::string>; scen_count = new std::map<std::string, std::uint64_t>;
	const char * state_path{nullptr}, * only{nullptr};
	long long single{-1};
	for(int i{1}; i + 1 < argc; i += 2) {
		const std::string a{argv[i]};
		const char * v{argv[i + 1]};
		if(a == "--prop") prop = v;
		else if(a == "--seed") seed = std::strtoull(v, nullptr, 10);
		else if(a == "--first") first = std::strtoull(v, nullptr, 10);
		else if(a == "--count") count = std::strtoull(v, nullptr, 10);
		else if(a == "--stride") stride = std::strtoull(v, nullptr, 10);
		else if(a == "--case") single = std::strtoll(v, nullptr, 10);
		else if(a == "--out") out_path = v;
		else if(a == "--distinct") distinct_path = v;
		else if(a == "--state") state_path = v;
		else if(a == "--only") only = v;
		else if(a == "--round") mon::round = std::atoi(v);
		else if(a == "--thorough") thorough = std::atoi(v) != 0;
		else harness_error("unknown argument %s", argv[i]);
	}
	if(const char * k{std::getenv("MON_KNOWN")}) {
		std::string s{k}, cur;
		for(char c : s + ",") if(c == ',') { if(!cur.empty()) known->push_back(cur); cur.clear(); } else cur += c;
	}
	if(state_path) {
		const int fd{open(state_path, O_RDWR | O_CREAT | O_TRUNC, 0600)};
		if(fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) harness_error("cannot create %s", state_path);
		void * m{mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)};
		if(m == MAP_FAILED) harness_error("mmap failed");
		close(fd);
		shared = static_cast<Shared *>(m);
	}
	shared->magic = 0x4D4F4E31;
	std::set_terminate([] { std::fputs("mon: std::terminate called\n", stderr); std::abort(); });
	std::signal(SIGVTALRM, on_cpu_limit);

	std::vector<Scenario *> wheel;
	std::vector<Scenario *> chosen;
	for(auto s{scenarios}; s; s = s->next) if(lists(s->props, prop) && (!only || std::strstr(s->name, only))) chosen.push_back(s);
	std::set<std::string> order; // registration order depends on link order: sort by name
	std::map<std::string, Scenario *> by_name;
	for(auto s : chosen) { if(by_name.count(s->name)) harness_error("duplicate scenario %s", s->name); by_name[s->name] = s; }
	for(unsigned w{0}, more{1}; more;) {
		more = 0;
		for(auto & [n, s] : by_name) if(w < s->weight) { wheel.push_back(s); more = 1; }
		++w;
	}
	if(wheel.empty()) harness_error("no scenario for %s", prop);

	auto run = [&](std::uint64_t idx) {
		const auto s{wheel[idx % wheel.size()]};
		case_index = idx; poisoned = tainted = false;
		shared->case_index = idx; shared->len = 0; shared->dropped = 0;
		std::snprintf(shared->scenario, sizeof shared->scenario, "%s", s->name);
		reset_timer();
		Rng rng{mix(seed * 0x9E3779B97F4A7C15ull + 77) ^ mix(idx)};
		if(case_begin) case_begin();
		s->fn(rng);
		if(case_end) case_end();
		++cases_done; ++(*scen_count)[s->name];
		if(stop()) ++cases_abandoned;
		if(samples->size() < 2 && !poisoned) samples->push_back(std::string{s->name} + ": " + log_text().substr(0, 700));
	};
	if(single >= 0) run(static_cast<std::uint64_t>(single));
	else for(std::uint64_t i{0}; i < count; ++i) run(first + i * stride);
	write_result(nullptr, nullptr, "");
	std::fflush(nullptr);
	_exit(0);
}
