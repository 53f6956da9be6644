#pragma once
#include "vs.h"
#include <stingraykit/function/bind.h>
#include <stingraykit/function/function.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/log/Logger.h>
#include <stdexcept>
#include <stdio.h>
#include <stdlib.h>

namespace drv
{
	using namespace stingray;
	inline vs::ev call(const char* op) { vs::ev e("call"); e.s("op", op); return e; }
	inline vs::ev ret(const char* op) { vs::ev e("ret"); e.s("op", op); return e; }
	// an exception that carries an integer
	struct TestError : public std::runtime_error { int k; explicit TestError(int k_) : std::runtime_error(std::to_string(k_)), k(k_) { } };
	// run f, turning an escaping std::exception into a short tag
	template <class F> std::string guarded(F f)
	{
		try { f(); return "ok"; }
		catch (const TestError& e) { return "err" + std::to_string(e.k); }
		catch (const std::exception&) { return "exc"; }
	}
}
