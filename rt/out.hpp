// Text written to a stream must be written as the standard library writes the same text: width, fill and adjustment included.
#pragma once
#include <iomanip>
#include <sstream>
#include <string>
#include <string_view>
#include "mon.hpp"

namespace mon {
	template<typename T> void written(Rng & r, const char * p, const T & t, std::string_view text) {
		const auto width{static_cast<int>(r.chance(1, 3) ? 0 : r.below(2) ? text.size() + r.below(9) : r.below(text.size() + 2))}; const char fill{r.chance(1, 2) ? ' ' : '*'}; const auto how{r.below(4)}; const bool broken{r.chance(1, 8)};
		const auto put{[&](std::ostringstream & os, const auto & x) { os << "<"; if(broken) os.setstate(std::ios::failbit); os << std::setw(width) << std::setfill(fill); switch(how) { case 0: os << std::left; break; case 1: os << std::right; break; case 2: os << std::internal; break; default: break; } auto & y{os << x}; CHECK(p, "stream-returned", &y == &os, "<< returns another stream"); if(!broken) { const auto w{os.width()}; os << ">" << 7; return w; } return os.width(); }};
		std::ostringstream a, b; const auto w1{put(a, text)}, w2{put(b, t)};
		CHECK(p, "stream", a.str() == b.str() && w1 == w2 && a.rdstate() == b.rdstate(), "%zu characters with width %d are written as %zu characters, expected %zu%s", text.size(), width, b.str().size(), a.str().size(), a.str().size() == b.str().size() ? " (the characters, the state or the width left over differ)" : "");
	}
}
