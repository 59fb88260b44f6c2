/* Interface stand-in for libcxml (not installed here): declarations only, so that the real
   sources of /repo/src can be parsed.  No function declared here is given a body; everything
   reached through it is outside what is verified. */
#ifndef STUB_CXML_H
#define STUB_CXML_H
#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <libxml++/libxml++.h>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdint.h>
#include <string>
#include <vector>
namespace cxml {
class Error : public std::exception {
public:
	explicit Error(std::string message) throw();
	~Error() throw();
	const char* what() const throw();
};
class Node;
typedef std::shared_ptr<Node> NodePtr;
typedef std::shared_ptr<const Node> ConstNodePtr;
class Node {
public:
	Node();
	explicit Node(xmlpp::Node const* node);
	virtual ~Node();
	std::string name() const;
	std::string string_child(std::string c) const;
	boost::optional<std::string> optional_string_child(std::string) const;
	bool bool_child(std::string) const;
	boost::optional<bool> optional_bool_child(std::string) const;
	template <class T> T number_child(std::string c) const;
	template <class T> boost::optional<T> optional_number_child(std::string c) const;
	void ignore_child(std::string) const;
	void done() const;
	std::string string_attribute(std::string) const;
	boost::optional<std::string> optional_string_attribute(std::string) const;
	bool bool_attribute(std::string) const;
	boost::optional<bool> optional_bool_attribute(std::string) const;
	template <class T> T number_attribute(std::string c) const;
	template <class T> boost::optional<T> optional_number_attribute(std::string c) const;
	std::string content() const;
	std::string namespace_uri() const;
	std::string namespace_prefix() const;
	bool is_text() const;
	NodePtr node_child(std::string) const;
	NodePtr optional_node_child(std::string) const;
	std::vector<NodePtr> node_children() const;
	std::vector<NodePtr> node_children(std::string) const;
	xmlpp::Node const* node() const;
};
class Document : public Node {
public:
	Document();
	explicit Document(std::string root_name);
	Document(std::string root_name, boost::filesystem::path);
	virtual ~Document();
	void read_file(boost::filesystem::path);
	void read_string(std::string, bool);
	void read_string(std::string);
	std::string root_name() const;
};
std::string make_local_time(std::string);
xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, std::string const& ns = std::string());
void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& text);
void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& ns, std::string const& text);
}
#endif
