// Not run: makes the extractor see compose.hpp.
#include "compose.hpp"
std::string verif_compose(std::string f, std::string a, std::string b, std::string c)
{
	return dcp::String::compose(f, a) + dcp::String::compose(f, a, b) + dcp::String::compose(f, a, b, c);
}
