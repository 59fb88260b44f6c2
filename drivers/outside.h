/* What the code under test refers to outside the library and the drivers never call */
#ifndef OUTSIDE_H
#define OUTSIDE_H
#include <libcxml/cxml.h>
#include <cstdlib>

std::string cxml::Node::string_child(std::string) const { abort(); }
std::string cxml::Node::string_attribute(std::string) const { abort(); }
std::string cxml::Node::content() const { abort(); }
xmlpp::Element* cxml::add_child(xmlpp::Element*, std::string const&, std::string const&) { abort(); }
void cxml::add_text_child(xmlpp::Element*, std::string const&, std::string const&) { abort(); }
void cxml::add_text_child(xmlpp::Element*, std::string const&, std::string const&, std::string const&) { abort(); }

namespace dcp {
std::string make_uuid() { abort(); }
}
#endif
