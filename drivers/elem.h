#pragma once
// An element that counts its instances, shows whether it is used after its destruction, and whose copies can be made to throw.
#include "vs.h"
#include <stdexcept>
namespace elem
{
	struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") { } };
	inline int& live() { static int n = 0; return n; }
	inline int& fuse() { static int n = -1; return n; } // copies until one throws; -1: never
	inline void burn() { if (fuse() >= 0 && fuse()-- == 0) throw Boom(); }
	inline void bad(const char* what) { vs::ev("corrupt").s("what", what); }
	struct Val
	{
		int v; int magic;
		Val() : v(0), magic(0x600d) { burn(); ++live(); }
		Val(int v_) : v(v_), magic(0x600d) { ++live(); }
		Val(const Val& o) : v(o.get()), magic(0x600d) { burn(); ++live(); }
		Val(Val&& o) noexcept : v(o.get()), magic(0x600d) { o.v = -55; ++live(); }
		Val& operator = (const Val& o) { int x = o.get(); get(); burn(); v = x; return *this; }
		Val& operator = (Val&& o) noexcept { int x = o.get(); get(); if (this != &o) o.v = -55; v = x; return *this; }
		~Val() { if (magic != 0x600d) bad("destroyed twice"); magic = 0xdead; *(volatile int*)&v = -77; --live(); }
		std::string ToString() const { return std::to_string(get()); }
		int get() const { if (magic != 0x600d) bad("used after destruction"); return v; }
		bool operator == (const Val& o) const { return get() == o.get(); } bool operator != (const Val& o) const { return get() != o.get(); }
		bool operator < (const Val& o) const { return get() < o.get(); } bool operator > (const Val& o) const { return o < *this; } bool operator <= (const Val& o) const { return !(o < *this); } bool operator >= (const Val& o) const { return !(*this < o); }
	};
}
