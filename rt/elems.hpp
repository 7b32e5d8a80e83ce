// What the engines know about element types: how to make one from a number and read the number back.
#pragma once
#include "tracked.hpp"
#include <initializer_list>
#include <string>
#include <vector>
#include <ptl/string.hpp>

namespace mon {
	template<typename T> struct El;
	template<int G, std::size_t A, std::size_t P> struct El<Tr<G, A, P>> {
		static constexpr bool tracked{true}; static constexpr int dflt{0};
		static auto make(int id) { return Tr<G, A, P>{id}; }
		static int get(const Tr<G, A, P> & t) { return t.get(); }
		static int moved(int) { return moved_from; }
		static const char * name() { return A > 16 ? "over-aligned" : A > 4 ? "aligned" : P ? "big" : "tracked"; }
	};
	template<> struct El<int> { static constexpr bool tracked{false}; static constexpr int dflt{0}; static int make(int id) { return id; } static int get(int v) { return v; } static int moved(int v) { return v; } static const char * name() { return "int"; } };
	template<> struct El<char> { static constexpr bool tracked{false}; static constexpr int dflt{0}; static char make(int id) { return static_cast<char>(id * 37); } static int get(char v) { return v; } static int moved(int v) { return v; } static const char * name() { return "char"; } };
	template<> struct El<std::string> {
		static constexpr bool tracked{false}; static constexpr int dflt{0};
		static std::string make(int id) { std::string s{id % 2 ? "" : "a text that does not fit inline, number "}; s += std::to_string(id); return s; }
		static int get(const std::string & s) { if(s.empty()) return 0; const auto p{s.find_last_of(' ')}; return std::atoi(s.c_str() + (p == std::string::npos ? 0 : p + 1)); }
		static int moved(int) { return 0; } static const char * name() { return "std::string"; }
	};
	template<> struct El<ptl::string> {
		static constexpr bool tracked{false}; static constexpr int dflt{0};
		static ptl::string make(int id) { return ptl::string{std::string_view{El<std::string>::make(id)}}; }
		static int get(const ptl::string & s) { return El<std::string>::get(std::string{s.data(), s.size()}); }
		static int moved(int v) { return v % 2 ? v : 0; } static const char * name() { return "ptl::string"; }
	};
	// plain types and types whose traits invite shortcuts
	struct Plain { static constexpr bool tracked{false}; static constexpr int dflt{0}; static int moved(int v) { return v; } };
	template<> struct El<double> : Plain { static double make(int id) { return id + 0.25; } static int get(double v) { return static_cast<int>(v); } static const char * name() { return "double"; } };
	template<> struct El<float> : Plain { static float make(int id) { return static_cast<float>(id) + 0.5f; } static int get(float v) { return static_cast<int>(v); } static const char * name() { return "float"; } };
	template<> struct El<short> : Plain { static short make(int id) { return static_cast<short>(id * 37 % 30011 + 1); } static int get(short v) { return v; } static const char * name() { return "short"; } };
	template<> struct El<bool> : Plain { static bool make(int id) { return id % 2; } static int get(bool v) { return v; } static const char * name() { return "bool"; } };
	template<> struct El<unsigned char> : Plain { static unsigned char make(int id) { return static_cast<unsigned char>(id * 37); } static int get(unsigned char v) { return v; } static const char * name() { return "unsigned char"; } };
	template<> struct El<unsigned long long> : Plain { static unsigned long long make(int id) { return static_cast<unsigned long long>(id) * 0x100000001ull; } static int get(unsigned long long v) { return v >> 32 == (v & 0xffffffff) ? static_cast<int>(v >> 32) : -99; } static const char * name() { return "unsigned long long"; } };
	enum class Color : unsigned char { none, first };
	template<> struct El<Color> : Plain { static Color make(int id) { return static_cast<Color>(static_cast<unsigned char>(id * 37)); } static int get(Color v) { return static_cast<int>(v); } static const char * name() { return "enum"; } };
	inline const int cells[5000]{};
	template<> struct El<const int *> : Plain { static const int * make(int id) { return id % 16 == 15 ? nullptr : &cells[id % 4999 + 1]; } static int get(const int * v) { return v ? static_cast<int>(v - cells) : 0; } static const char * name() { return "pointer"; } };
	#define ORDER(T, f) friend bool operator==(const T & a, const T & b) noexcept { return a.f == b.f; } friend bool operator!=(const T & a, const T & b) noexcept { return a.f != b.f; } friend bool operator<(const T & a, const T & b) noexcept { return a.f < b.f; } friend bool operator<=(const T & a, const T & b) noexcept { return a.f <= b.f; } friend bool operator>(const T & a, const T & b) noexcept { return a.f > b.f; } friend bool operator>=(const T & a, const T & b) noexcept { return a.f >= b.f; }
	struct Odd3 { unsigned char a, b, c; int n() const noexcept { return a * 256 + b; } bool ok() const noexcept { return c == static_cast<unsigned char>(a ^ b); } ORDER(Odd3, n()) }; // 3 bytes
	template<> struct El<Odd3> : Plain { static Odd3 make(int id) { const auto h{static_cast<unsigned char>(id >> 8)}, l{static_cast<unsigned char>(id)}; return {h, l, static_cast<unsigned char>(h ^ l)}; } static int get(const Odd3 & v) { return v.ok() ? v.n() : -99; } static const char * name() { return "3 bytes"; } };
	struct Padded { char a; double b; char c; int n() const noexcept { return static_cast<int>(b); } ORDER(Padded, b) }; // 24 bytes, 14 of padding
	template<> struct El<Padded> : Plain { static Padded make(int id) { return {static_cast<char>(id), id + 0.5, static_cast<char>(id + 1)}; } static int get(const Padded & v) { return v.a == 0 && v.b == 0 && v.c == 0 ? 0 : v.a == static_cast<char>(v.n()) && v.c == static_cast<char>(v.n() + 1) ? v.n() : -99; } static const char * name() { return "padded"; } };
	struct Starts { int v{77}; ORDER(Starts, v) }; // trivially copyable, but its default is not zero
	template<> struct El<Starts> : Plain { static constexpr int dflt{77}; static Starts make(int id) { return {id}; } static int get(const Starts & v) { return v.v; } static const char * name() { return "default 77"; } };
	struct Self { // knows its address, has a trivial destructor
		const Self * me; int v;
		Self() noexcept : me{this}, v{0} {} explicit Self(int v) noexcept : me{this}, v{v} {} Self(const Self & o) noexcept : me{this}, v{o.get()} {} Self & operator=(const Self & o) noexcept { v = me == this ? o.get() : -98; return *this; }
		int get() const noexcept { return me == this ? v : -99; }
		ORDER(Self, v)
	};
	template<> struct El<Self> : Plain { static Self make(int id) { return Self{id}; } static int get(const Self & v) { return v.get(); } static const char * name() { return "self pointer"; } };
	struct Amp { // its address is not what & yields
		int v; Amp * operator&() noexcept { return nullptr; } const Amp * operator&() const noexcept { return nullptr; } ORDER(Amp, v)
	};
	template<> struct El<Amp> : Plain { static Amp make(int id) { return {id}; } static int get(const Amp & v) { return v.v; } static const char * name() { return "overloaded &"; } };
	struct Many { // different constructors for (), {} with one and several arguments
		int v; Many() noexcept : v{0} {} explicit Many(int v) noexcept : v{v} {} Many(int a, int b) noexcept : v{a * 10000 + b} {} ORDER(Many, v)
	};
	template<> struct El<Many> : Plain { static Many make(int id) { return Many{id}; } static int get(const Many & v) { return v.v; } static const char * name() { return "many constructors"; } };
	struct List { // a value in braces may be a list of one value
		int v; List() noexcept : v{0} {} explicit List(int v) noexcept : v{v} {} List(std::initializer_list<List> l) : v{-1000 - static_cast<int>(l.size())} {} ORDER(List, v)
		List(const List &) noexcept =default; List(List &&) noexcept =default; List & operator=(const List &) noexcept =default; List & operator=(List &&) noexcept =default;
	};
	template<> struct El<List> : Plain { static List make(int id) { return List(id); } static int get(const List & v) { return v.v; } static const char * name() { return "list of itself"; } };
	template<typename T> struct Sources : std::vector<T> {}; // like std::vector, also for bool
	template<> struct Sources<bool> { std::vector<unsigned char> c; static_assert(sizeof(bool) == 1); void clear() { c.clear(); } void reserve(std::size_t n) { c.reserve(n); } void push_back(bool b) { c.push_back(b); } bool * data() { return reinterpret_cast<bool *>(c.data()); } std::size_t size() const { return c.size(); } bool operator[](std::size_t i) const { return c[i] != 0; } bool * begin() { return data(); } bool * end() { return data() + size(); } };
}
