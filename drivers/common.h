// Line protocol of the replay drivers: "op arg arg ..." on stdin, "=result ..." or "=exc type" on stdout.
// Strings are 'x' followed by hexadecimal bytes; doubles are C hexadecimal floats.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

struct In
{
	std::istringstream s;
	explicit In(std::string const& l) : s(l) {}
	std::string tok() { std::string t; s >> t; return t; }
	long long i() { return std::stoll(tok()); }
	unsigned long long u() { return std::stoull(tok()); }
	bool b() { return i() != 0; }
	double d() { return strtod(tok().c_str(), nullptr); }
	std::string str() {
		auto t = tok();
		std::string r;
		for (size_t k = 1; k + 1 < t.size(); k += 2) {
			r += char(std::stoi(t.substr(k, 2), nullptr, 16));
		}
		return r;
	}
	std::vector<long long> is() { std::vector<long long> v; auto n = i(); while (n-- > 0) v.push_back(i()); return v; }
};

struct Out
{
	std::string r;
	bool nonfinite = false;
	void tok(std::string const& t) { r += (r.empty() ? "" : " ") + t; }
	void i(long long v) { tok(std::to_string(v)); }
	void u(unsigned long long v) { tok(std::to_string(v)); }
	void b(bool v) { tok(v ? "1" : "0"); }
	void d(double v) { if (!std::isfinite(v)) nonfinite = true; char q[64]; snprintf(q, sizeof q, "%a", v); tok(q); }
	void str(std::string const& v) {
		std::string t = "x";
		char q[4];
		for (unsigned char c: v) { snprintf(q, sizeof q, "%02x", c); t += q; }
		tok(t);
	}
	template <class T> void is(T const& v) { i(v.size()); for (auto const& x: v) i(x); }
};

typedef std::map<std::string, std::function<void (In&, Out&)>> Ops;

inline std::string type_name(std::type_info const& t)
{
	int st = 0;
	char* n = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
	std::string r = n ? n : t.name();
	free(n);
	return r;
}

inline int serve(Ops const& ops)
{
	std::string l;
	while (std::getline(std::cin, l)) {
		In in(l);
		Out out;
		auto o = in.tok();
		std::string res;
		if (o == "ping") {
			std::cout << "=pong" << std::endl;
			continue;
		}
		try {
			auto j = ops.find(o);
			if (j == ops.end()) {
				std::cerr << "unknown op " << o << "\n";
				return 3;
			}
			j->second(in, out);
			res = out.nonfinite ? "exc nonfinite" : out.r;
		} catch (std::exception& e) {
			res = "exc " + type_name(typeid(e));
		} catch (...) {
			res = "exc other";
		}
		std::cout << "=" << res << std::endl;
	}
	return 0;
}

#endif
