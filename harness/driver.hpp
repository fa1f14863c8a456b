// Interpreter for "programs" over the public API of sharg: declarations shared by all translation units.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <map>
#include <typeinfo>
#include <unordered_map>
#include <vector>

#include <sharg/all.hpp>

namespace drv
{

using tokens = std::vector<std::string>;

std::string enc(std::string_view s);
std::string dec(std::string_view s);

// Where the events of one case go.
struct sink
{
    int fd{-1};          // if >= 0, written immediately (survives crashes)
    std::string * buf{}; // otherwise appended
    void line(std::string const & s);
};

// Sink of the thread that executes a case right now.
extern thread_local sink * current_sink;

// Common attributes of an add_option/add_flag/add_positional_option call.
struct attrs
{
    char short_id{'\0'};
    std::string long_id{};
    std::string description{};
    std::string default_message{};
    bool advanced{};
    bool hidden{};
    bool required{};
    std::string validator{"none"}; // still encoded: validators separated by '|', fields by ','
};

struct slot_base
{
    virtual ~slot_base() = default;
    virtual std::string dump() const = 0;
    virtual void add_option(sharg::parser &, attrs const &) = 0;
    virtual void add_positional(sharg::parser &, attrs const &) = 0;
    virtual void add_flag(sharg::parser &, attrs const &)
    {
        throw std::logic_error{"driver: flag slot must be bool"};
    }
    // calls the validator directly
    virtual void validate(std::string const & spec) = 0;
    virtual std::string validator_message(std::string const & spec) = 0;
};

// Implemented by the translation units of the types; returns nullptr for types of other units.
std::unique_ptr<slot_base> make_slot_0(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_1(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_2(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_3(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_4(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_5(std::string const & type, tokens const & init);
std::unique_ptr<slot_base> make_slot_6(std::string const & type, tokens const & init);

tokens split(std::string const & s, char sep);

// A validator whose type does not depend on what it checks: wraps the real validators of sharg.
template <typename value_t>
struct any_validator
{
    using option_value_type = value_t;
    std::function<void(value_t const &)> fn{};
    std::string msg{};

    void operator()(value_t const & v) const
    {
        if (fn)
            fn(v);
    }
    std::string get_help_page_message() const
    {
        return msg;
    }
};

} // namespace drv

// A user defined enumeration with a custom name map (several names per value, names with blanks).
namespace userns
{
enum class color
{
    red = 3,
    green = 1,
    blue = 2
};
inline auto enumeration_names(color)
{
    return std::unordered_map<std::string_view, color>{{"red", color::red},
                                                       {"r", color::red},
                                                       {"green", color::green},
                                                       {"light green", color::green},
                                                       {"-g", color::green},
                                                       {"blue", color::blue},
                                                       {"3", color::blue},
                                                       {"", color::blue}};
}

// A user defined type with stream operators: "X:Y" with two ints.
struct point
{
    int x{};
    int y{};
    friend bool operator==(point const &, point const &) = default;
    friend std::istream & operator>>(std::istream & is, point & p)
    {
        char c{};
        int a{}, b{};
        is >> a >> c >> b;
        if (is && c != ':')
            is.setstate(std::ios::failbit);
        if (is)
            p = point{a, b};
        return is;
    }
    friend std::ostream & operator<<(std::ostream & os, point const & p)
    {
        return os << p.x << ':' << p.y;
    }
};

// A user defined type whose operator reads a single character and does not look beyond it.
struct base
{
    char c{'N'};
    friend bool operator==(base const &, base const &) = default;
    friend std::istream & operator>>(std::istream & is, base & b)
    {
        char c{};
        is >> c;
        if (is && std::string_view{"ACGTN"}.find(c) == std::string_view::npos)
            is.setstate(std::ios::failbit);
        if (is)
            b.c = c;
        return is;
    }
    friend std::ostream & operator<<(std::ostream & os, base const & b)
    {
        return os << b.c;
    }
};
} // namespace userns

// A third-party enumeration, customised via sharg::custom::parsing, ordered map.
namespace thirdparty
{
enum shape
{
    circle,
    square
};
} // namespace thirdparty

template <>
struct sharg::custom::parsing<thirdparty::shape>
{
    static inline std::map<std::string_view, thirdparty::shape> const enumeration_names{
        {"circle", thirdparty::circle},
        {"round", thirdparty::circle},
        {"square", thirdparty::square},
        {"Square", thirdparty::square}};
};
