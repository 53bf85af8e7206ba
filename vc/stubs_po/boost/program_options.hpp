// Model of boost::program_options (assumed contract): the container of values; parsing the command line is not modelled
#ifndef VC_PO_HPP
#define VC_PO_HPP
#include <boost/any.hpp>
#include <boost/shared_ptr.hpp>
#include <map>
#include <ostream>
#include <string>
#include <vector>
namespace boost::program_options {
class variable_value
{
    boost::any v; bool m_defaulted = false;
  public:
    variable_value() {} variable_value(const boost::any& x, bool d) : v(x), m_defaulted(d) {}
    template<class T> const T& as() const { return boost::any_cast<const T&>(v); } template<class T> T& as() { return boost::any_cast<T&>(v); }
    bool empty() const { return v.empty(); } bool defaulted() const { return m_defaulted; } const boost::any& value() const { return v; } boost::any& value() { return v; }
};
class variables_map : public std::map<std::string, variable_value>
{
    using M = std::map<std::string, variable_value>;
  public:
    const variable_value& operator[](const std::string& k) const { static const variable_value none; auto i = this->find(k); return i == this->end() ? none : i->second; }
    void clear() { M::clear(); }
};
struct option_description { std::string name, text; const std::string& description() const { return text; } std::string canonical_display_name(int = 0) const { return name; } const std::string& long_name() const { return name; } };
struct value_semantic { virtual ~value_semantic() {} };
template<class T> struct typed_value : value_semantic { typed_value* default_value(const T&) { return this; } typed_value* implicit_value(const T&) { return this; } };
template<class T> typed_value<T>* value() { static typed_value<T> t; return &t; }
class options_description
{
    struct adder { adder& operator()(const char*, const char*) { return *this; } adder& operator()(const char*, const value_semantic*, const char*) { return *this; } };
    std::vector<boost::shared_ptr<option_description>> o; adder a;
  public:
    options_description() {} explicit options_description(const std::string&) {}
    adder& add_options() { return a; } options_description& add(const options_description& d) { for (auto& x : d.o) o.push_back(x); return *this; } const std::vector<boost::shared_ptr<option_description>>& options() const { return o; }
};
inline std::ostream& operator<<(std::ostream& s, const options_description&) { return s; }
struct option { std::string string_key; std::vector<std::string> value; };
struct parsed_options { std::vector<option> options; };
enum collect_unrecognized_mode { include_positional, exclude_positional };
inline std::vector<std::string> collect_unrecognized(const std::vector<option>&, collect_unrecognized_mode) { return {}; }
namespace command_line_style { enum style_t { allow_long = 1, allow_short = 2, allow_dash_for_short = 4, allow_slash_for_short = 8, long_allow_adjacent = 16, long_allow_next = 32, short_allow_adjacent = 64, short_allow_next = 128, allow_sticky = 256 }; }
struct command_line_parser { command_line_parser(int, const char* const*) {} command_line_parser& options(const options_description&) { return *this; } command_line_parser& allow_unregistered() { return *this; } command_line_parser& style(int) { return *this; } parsed_options run() { return {}; } };
inline parsed_options parse_command_line(int, const char* const*, const options_description&) { return {}; }
inline void store(const parsed_options&, variables_map&) {}
inline void notify(variables_map&) {}
}
#endif
