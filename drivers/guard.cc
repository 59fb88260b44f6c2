#include "common.h"
#include "scope_guard.h"
#include <memory>

int main()
{
	Ops ops;
	// c: cancel the present guard, m: move it into a new one, o: cancel the guard moved from, d: destroy the guards moved from
	ops["guard"] = [](In& in, Out& out) {
		auto const h = in.str();
		int runs = 0;
		std::vector<long long> seen;
		std::vector<std::unique_ptr<dcp::ScopeGuard>> old;
		std::function<void ()> f = [&runs]() { ++runs; };
		std::unique_ptr<dcp::ScopeGuard> now(new dcp::ScopeGuard(f));
		for (auto c: h) {
			if (c == 'c') now->cancel();
			else if (c == 'm') { std::unique_ptr<dcp::ScopeGuard> n(new dcp::ScopeGuard(std::move(*now))); old.push_back(std::move(now)); now = std::move(n); }
			else if (c == 'o') { if (!old.empty()) old.back()->cancel(); }
			else if (c == 'd') old.clear();
			seen.push_back(runs);
		}
		now.reset();
		seen.push_back(runs);
		old.clear();
		seen.push_back(runs);
		out.is(seen);
	};
	return serve(ops);
}
