/* Declarations of the libcxml 0.17 interface that libdcp uses.  libcxml is not
   installed here; this header exists so that clang can resolve names and types
   while the sources are analysed.  Nothing is ever linked or run against it. */
#ifndef VERIF_STUB_CXML_H
#define VERIF_STUB_CXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <boost/algorithm/string/erase.hpp>
#include <cmath>
#include <cstdint>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace Glib { class ustring; }
namespace xmlpp { class Node; class Document; class Element; class DomParser; }

namespace cxml {

class Error : public std::runtime_error
{
public:
	explicit Error(std::string const& message) : std::runtime_error(message) {}
};

class Node;
typedef std::shared_ptr<cxml::Node> NodePtr;
typedef std::shared_ptr<const cxml::Node> ConstNodePtr;

class Node
{
public:
	Node();
	explicit Node(xmlpp::Node* node);
	explicit Node(xmlpp::Node const* node);

	std::string name() const;
	std::string string_child(std::string const& c) const;
	boost::optional<std::string> optional_string_child(std::string const& c) const;
	bool bool_child(std::string const& c) const;
	boost::optional<bool> optional_bool_child(std::string const& c) const;

	template <class T> T number_child(std::string const& c) const;
	template <class T> boost::optional<T> optional_number_child(std::string const& c) const;

	bool bool_attribute(std::string const& name) const;
	std::string string_attribute(std::string const& name) const;
	boost::optional<std::string> optional_string_attribute(std::string const& name) const;
	boost::optional<bool> optional_bool_attribute(std::string const& name) const;

	template <class T> T number_attribute(std::string const& name) const;
	template <class T> boost::optional<T> optional_number_attribute(std::string const& name) const;

	std::string content() const;
	std::string namespace_uri() const;
	std::string namespace_prefix() const;
	bool is_text() const;

	NodePtr node_child(std::string const& name) const;
	NodePtr optional_node_child(std::string const& name) const;
	std::vector<NodePtr> node_children() const;
	std::vector<NodePtr> node_children(std::string const& name) const;

	void ignore_child(std::string const& name) const;
	void done() const;
	xmlpp::Node* node() const;
	int line() const;

protected:
	xmlpp::Node* _node;
};

class Document : public Node
{
public:
	Document();
	explicit Document(std::string const& root_name);
	Document(std::string const& root_name, boost::filesystem::path file);
	virtual ~Document();
	void read_file(boost::filesystem::path file);
	void read_string(std::string const& s, bool use_root_name = true);
	std::string root_name() const;
};

xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, std::string const& namespace_prefix = std::string());
void add_text_child(xmlpp::Element const* parent, std::string const& name, std::string const& content);
xmlpp::Element* add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& content);
xmlpp::Element* add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& namespace_prefix, std::string const& content);

template <class P, class Q> P raw_convert(Q v);

}

#endif
