/* Stand-in for the newer fast_float that the repository vendors (the installed one has no integer
   parsing): same interface and documented behaviour for the calls made in raw_convert.cc. */
#ifndef STUB_FAST_FLOAT_H
#define STUB_FAST_FLOAT_H
#include <cstdlib>
#include <limits>
#include <locale.h>
#include <string>
#include <system_error>
#include <type_traits>
namespace fast_float {
struct from_chars_result { const char* ptr; std::errc ec; };
template <class T>
typename std::enable_if<std::is_integral<T>::value, from_chars_result>::type
from_chars(const char* first, const char* last, T& value, int base = 10)
{
	const char* p = first;
	bool neg = false;
	if (std::is_signed<T>::value && p != last && *p == '-') { neg = true; ++p; }
	const char* start = p;
	unsigned __int128 v = 0;
	bool over = false;
	while (p != last && *p >= '0' && *p <= '9') {
		if (!over) {
			v = v * 10 + (*p - '0');
			over = v > (static_cast<unsigned __int128>(1) << 70);
		}
		++p;
	}
	if (p == start) { return { first, std::errc::invalid_argument }; }
	unsigned __int128 const limit = static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
	if (over || v > limit) { return { p, std::errc::result_out_of_range }; }
	value = neg ? static_cast<T>(-static_cast<__int128>(v)) : static_cast<T>(v);
	return { p, std::errc() };
}
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, from_chars_result>::type
from_chars(const char* first, const char* last, T& value)
{
	std::string s(first, last);
	if (s.empty() || isspace(static_cast<unsigned char>(s[0])) || s[0] == '+') { return { first, std::errc::invalid_argument }; }
	static locale_t c = newlocale(LC_ALL_MASK, "C", 0);
	char* end = 0;
	double v = strtod_l(s.c_str(), &end, c);
	if (end == s.c_str()) { return { first, std::errc::invalid_argument }; }
	value = static_cast<T>(v);
	return { first + (end - s.c_str()), std::errc() };
}
}
#endif
