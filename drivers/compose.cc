#include "common.h"
#include "compose.hpp"

using namespace dcp;

int main()
{
	Ops ops;
	char const* patterns[] = {
		"%1",
		"a%1",
		"%1b",
		"no place",
		"%1%1",
		"100%% of %1",
		"%",
		"%x %1%",
		"%1 %2",
		"%2 %1",
		"of %1: %2 (%1)",
		"%2%1",
		"only %2",
		"%1/%2/%3",
		"%3%1-%2",
		"%3, %3 and %2",
	};
	ops["compose"] = [&](In& in, Out& out) {
		std::string p = patterns[in.i()];
		int n = in.i();
		auto a = in.str();
		if (n == 1) {
			out.str(String::compose(p, a));
			return;
		}
		auto b = in.str();
		if (n == 2) {
			out.str(String::compose(p, a, b));
			return;
		}
		auto c = in.str();
		out.str(String::compose(p, a, b, c));
	};
	return serve(ops);
}
