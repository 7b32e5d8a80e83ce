#include "tracked.hpp"
#include <cstdlib>

extern "C" { void * __real_calloc(std::size_t, std::size_t); void __real_free(void *); }

namespace mon {
	std::size_t Life::live{0};
	long Life::throw_in{-1};
	bool Life::fired{false}, Life::misaligned{false};
	std::uint64_t Life::copies{0}, Life::moves{0}, Life::ctors{0}, Life::dtors{0};
	int Life::copied[Life::copied_cap], Life::n_copied{0};

	namespace { // open addressing with backward shift deletion
		const void ** tab{nullptr};
		std::size_t cap{0}, n{0};
		std::size_t home(const void * p) noexcept { return mix(reinterpret_cast<std::uintptr_t>(p)) & (cap - 1); }
		void ins(const void * p) { auto i{home(p)}; while(tab[i]) i = (i + 1) & (cap - 1); tab[i] = p; ++n; }
		bool has(const void * p) noexcept {
			if(!cap) return false;
			for(auto i{home(p)}; tab[i]; i = (i + 1) & (cap - 1)) if(tab[i] == p) return true;
			return false;
		}
		void rem(const void * p) noexcept {
			auto i{home(p)};
			while(tab[i] != p) i = (i + 1) & (cap - 1);
			tab[i] = nullptr; --n;
			for(auto j{(i + 1) & (cap - 1)}; tab[j]; j = (j + 1) & (cap - 1)) {
				const auto h{home(tab[j])};
				if(((j - h) & (cap - 1)) >= ((j - i) & (cap - 1))) { tab[i] = tab[j]; tab[j] = nullptr; i = j; }
			}
		}
	}

	bool Life::alive(const void * p) noexcept { return has(p); }
	void Life::born(const void * p, std::size_t, std::size_t align) {
		if(reinterpret_cast<std::uintptr_t>(p) % align) misaligned = true;
		if(has(p)) { violate("C07", "construct-over-live", "an object is constructed over a living one"); return; }
		if((n + 1) * 2 > cap) {
			const auto old{tab}; const auto m{cap};
			cap = m ? m * 2 : 1024; n = 0;
			tab = static_cast<const void **>(__real_calloc(cap, sizeof(void *)));
			if(!tab) harness_error("registry out of memory");
			for(std::size_t i{0}; i < m; ++i) if(old[i]) ins(old[i]);
			__real_free(old);
		}
		ins(p); ++live;
	}
	void Life::dead(const void * p) {
		++dtors;
		if(!has(p)) { violate("C07", "destroy-dead", "an object that is not alive is destroyed"); return; }
		rem(p); --live;
	}
	void Life::need(const void * p, const char * what) {
		n_checks.fetch_add(1, std::memory_order_relaxed);
		if(!has(p)) violate("C07", "use-dead", "an object that is not alive is %s", what);
	}
	void Life::may_throw(int what) {
		if(throw_in >= 0 && heap::sut && throw_in-- == 0) { fired = true; throw Injected{what}; }
	}
	void Life::copied_one(int val) { if(n_copied < copied_cap) copied[n_copied] = val; ++n_copied; }
	void Life::reset() {
		for(std::size_t i{0}; i < cap; ++i) tab[i] = nullptr;
		n = 0; live = 0; throw_in = -1; fired = misaligned = false; n_copied = 0;
	}
}

namespace mon {
	void case_begin() { heap::reset(); Life::reset(); }
	void case_end() {
		if(poisoned) return;
		if(Life::live != 0) { violate("C07", "objects-leaked", "%zu objects are still alive after their last container is gone", Life::live); return; }
		if(heap::live_blocks != 0) violate("C07", "memory-leaked", "%zu blocks (%zu bytes) were never returned", heap::live_blocks, heap::live_bytes);
	}
}
