// Coverage-guided fuzzing of whole command lines against an independent reference reading of the command line.
// Input: two bytes select what is declared, the rest are the arguments separated by line feeds.
// FUZZ_ORACLE selects what is judged: c01 (values), c02 (declaration order), c03 (accepted although wrong),
// c09 (crashes, foreign exceptions), c11 (is_option_set). Crashes are always fatal.
#include <sharg/all.hpp>

#include <charconv>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <set>
#include <sstream>

namespace
{

struct exit_called
{
    int code;
};

} // namespace

static bool inside = false;

extern "C" [[noreturn]] void __real_exit(int);
extern "C" [[noreturn]] void __wrap_exit(int code)
{
    if (inside)
        throw exit_called{code};
    __real_exit(code);
}

namespace fz
{
enum class colour
{
    red,
    green
};
inline auto enumeration_names(colour)
{
    return std::unordered_map<std::string_view, colour>{{"red", colour::red}, {"green", colour::green}, {"-r", colour::red}};
}
} // namespace fz

namespace
{

struct null_buffer : std::streambuf
{
    int overflow(int c) override
    {
        return c == EOF ? 0 : c;
    }
    std::streamsize xsputn(char const *, std::streamsize n) override
    {
        return n;
    }
} nothing;

using strings = std::vector<std::string>;

// ---------------------------------------------------------------------------------------------------------------- values
struct variables
{
    int i{7};
    std::string s{"init"};
    double d{0.5};
    bool t{false};
    fz::colour c{fz::colour::green};
    std::vector<int> l{1, 2};
    strings m{"x"};
    std::filesystem::path p{"path"};
    uint8_t u{9};
    bool fa{}, fb{}, fverbose{}, fbc{}, f1{}, fi{};
    std::string pos{"pos"};
    strings rest{"r"};
    int number{3};
};

template <typename T>
std::string text(T const & v)
{
    std::ostringstream o;
    if constexpr (std::same_as<T, std::filesystem::path>)
        o << v.string();
    else if constexpr (std::same_as<T, fz::colour>)
        o << int(v);
    else if constexpr (std::same_as<T, uint8_t>)
        o << unsigned(v);
    else if constexpr (std::same_as<T, std::vector<int>> || std::same_as<T, strings>)
        for (auto const & x : v)
            o << x << '\0';
    else if constexpr (std::same_as<T, double>)
        o << std::hexfloat << v;
    else
        o << v;
    return o.str();
}

strings snapshot(variables const & v)
{
    return {text(v.i), text(v.s), text(v.d), text(v.t), text(v.c), text(v.l), text(v.m), text(v.p), text(v.u), text(v.fa), text(v.fb),
            text(v.fverbose), text(v.fbc), text(v.f1), text(v.fi), text(v.pos), text(v.rest), text(v.number)};
}

template <typename T>
bool read(T & v, std::string const & in)
{
    if constexpr (std::same_as<T, std::string> || std::same_as<T, std::filesystem::path>)
    {
        v = in;
        return true;
    }
    else if constexpr (std::same_as<T, bool>)
    {
        if (in == "1" || in == "true")
            v = true;
        else if (in == "0" || in == "false")
            v = false;
        else
            return false;
        return true;
    }
    else if constexpr (std::same_as<T, fz::colour>)
    {
        if (in == "red" || in == "-r")
            v = fz::colour::red;
        else if (in == "green")
            v = fz::colour::green;
        else
            return false;
        return true;
    }
    else if constexpr (std::integral<T>)
    {
        size_t k = 0;
        bool const minus = !in.empty() && in[0] == '-' && std::is_signed_v<T>;
        k += minus;
        if (k == in.size())
            return false;
        __int128 x = 0;
        for (; k < in.size(); ++k)
        {
            if (in[k] < '0' || in[k] > '9')
                return false;
            if (x < __int128{1} << 100)
                x = x * 10 + (in[k] - '0');
        }
        if (minus)
            x = -x;
        if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max())
            return false;
        v = static_cast<T>(x);
        return true;
    }
    else if constexpr (std::same_as<T, double>)
    {
        auto [ptr, ec] = std::from_chars(in.data(), in.data() + in.size(), v);
        return ec == std::errc{} && ptr == in.data() + in.size();
    }
    else
    {
        typename T::value_type x{};
        if (!read(x, in))
            return false;
        v.push_back(x);
        return true;
    }
}

// ------------------------------------------------------------------------------------------------------------ declarations
struct decl
{
    char short_id;
    std::string long_id;
    bool flag, list, required;
    std::function<void(sharg::parser &)> declare;
    std::function<bool(std::string const &)> set; // reference
    std::function<void()> clear;
};

template <typename T>
decl option(variables & lib, variables & ref, T variables::*member, char s, std::string l, bool required = false)
{
    decl d{s, l, false, !std::same_as<T, std::string> && sharg::detail::is_container_option<T>, required, {}, {}, [] {}};
    T & x = lib.*member;
    T & y = ref.*member;
    d.declare = [&x, s, l, required](sharg::parser & p)
    {
        p.add_option(x, sharg::config{.short_id = s, .long_id = l, .required = required});
    };
    d.set = [&y](std::string const & in)
    {
        return read(y, in);
    };
    if constexpr (std::same_as<T, std::vector<int>> || std::same_as<T, strings>)
        d.clear = [&y]
        {
            y.clear();
        };
    return d;
}

decl flag(variables & lib, variables & ref, bool variables::*member, char s, std::string l)
{
    bool & x = lib.*member;
    bool & y = ref.*member;
    return {s,
            l,
            true,
            false,
            false,
            [&x, s, l](sharg::parser & p)
            {
                p.add_flag(x, sharg::config{.short_id = s, .long_id = l});
            },
            [&y](std::string const &)
            {
                y = true;
                return true;
            },
            [] {}};
}

std::vector<decl> declarations(variables & lib, variables & ref, unsigned bits)
{
    std::vector<decl> r;
    auto on = [&](int k)
    {
        return bits >> k & 1;
    };
    using V = variables;
    if (on(0))
        r.push_back(option(lib, ref, &V::i, 'i', "int"));
    else
        r.push_back(flag(lib, ref, &V::fi, 'i', "in"));
    if (on(1))
        r.push_back(option(lib, ref, &V::s, 's', "str", on(10)));
    if (on(2))
        r.push_back(option(lib, ref, &V::l, 'l', "int-list"));
    if (on(3))
        r.push_back(option(lib, ref, &V::m, 'm', "b"  "c-list"));
    if (on(4))
        r.push_back(option(lib, ref, &V::t, '\0', "bool"));
    if (on(5))
        r.push_back(option(lib, ref, &V::c, 'c', ""));
    if (on(6))
        r.push_back(option(lib, ref, &V::d, 'd', "double"));
    if (on(7))
        r.push_back(option(lib, ref, &V::p, '\0', "str-path"));
    if (on(8))
        r.push_back(option(lib, ref, &V::u, '2', "u_8"));
    r.push_back(flag(lib, ref, &V::fa, 'a', ""));
    r.push_back(flag(lib, ref, &V::fb, 'b', "bb"));
    r.push_back(flag(lib, ref, &V::fbc, '\0', "bc"));
    if (on(9))
        r.push_back(flag(lib, ref, &V::f1, '1', "1a"));
    r.push_back(flag(lib, ref, &V::fverbose, 'v', "verbose"));
    return r;
}

// --------------------------------------------------------------------------------------------------------------- reference
enum class outcome
{
    ok,
    error,
    request,
    sub
};

// How the documentation reads a command line; knows nothing of the implementation.
struct reference
{
    std::vector<decl> & ds;
    variables & v;
    bool subcommands;
    int positionals; // 0 none, 1 one string, 2 string and list, 3 number and string
    std::map<size_t, int> seen{};
    std::set<std::pair<size_t, bool>> spelled{}; // declaration, by its long identifier
    std::string why{};
    size_t sub_at{};

    decl * by_short(char c, bool flag)
    {
        for (auto & d : ds)
            if (d.short_id != '\0' && d.short_id == c && d.flag == flag)
                return &d;
        return nullptr;
    }
    decl * by_long(std::string const & s, bool flag)
    {
        for (auto & d : ds)
            if (!d.long_id.empty() && d.long_id == s && d.flag == flag)
                return &d;
        return nullptr;
    }

    outcome bad(std::string m)
    {
        why = std::move(m);
        return outcome::error;
    }

    outcome run(strings const & args)
    {
        // 1st: requests and subcommands
        strings words, pos;
        bool end = false;
        if (args.size() < 2)
            return outcome::request;
        struct item
        {
            decl * d;
            std::string value;
            bool by_long_id;
        };
        std::vector<item> given;
        std::vector<std::string> problems;
        outcome special = outcome::ok;
        for (size_t k = 1; k < args.size(); ++k)
        {
            std::string const & a = args[k];
            decl * o = end                                        ? nullptr
                     : a.starts_with("--")                        ? by_long(a.substr(2), false)
                     : a.size() == 2 && a[0] == '-' && a[1] != '-' ? by_short(a[1], false)
                                                                  : nullptr;
            if (o)
            {
                if (k + 1 == args.size())
                {
                    problems.push_back("value missing");
                    break;
                }
                given.push_back({o, args[++k], a[1] == '-'});
                continue;
            }
            if (subcommands)
            {
                if (a == "sub" || a == "s")
                {
                    sub_at = k;
                    special = special == outcome::ok ? outcome::sub : special;
                    break;
                }
                if (!a.starts_with('-'))
                    return bad("unknown subcommand"); // wins over requests
            }
            if (end)
            {
                pos.push_back(a);
                continue;
            }
            if (a == "--")
            {
                end = true;
                continue;
            }
            if (a == "-h" || a == "--help" || a == "-hh" || a == "--advanced-help" || a == "--version" || a == "--copyright")
            {
                special = outcome::request;
                continue;
            }
            if (a == "--export-help" || a.starts_with("--export-help="))
            {
                std::string value = a.size() > 14 ? a.substr(14) : "";
                if (a == "--export-help")
                {
                    if (k + 1 == args.size())
                        return bad("format missing");
                    value = args[++k];
                }
                if (value == "ctd" || value == "cwl")
                    special = outcome::error; // not available
                else if (value == "html" || value == "man")
                    special = outcome::request;
                else
                    return bad("format");
                continue;
            }
            if (a == "--version-check")
            {
                if (k + 1 == args.size())
                    return bad("version-check");
                ++k;
                bool b;
                if (!read(b, args[k]))
                    return bad("version-check");
                continue;
            }
            if (a.size() < 2 || a[0] != '-')
            {
                pos.push_back(a);
                continue;
            }
            if (a[1] == '-')
            {
                size_t const eq = a.find('=');
                std::string const name = a.substr(2, eq == a.npos ? a.npos : eq - 2);
                if (eq != a.npos)
                {
                    decl * d = by_long(name, false);
                    if (d && eq + 1 < a.size())
                        given.push_back({d, a.substr(eq + 1), true});
                    else
                        problems.push_back("unknown or empty " + a);
                }
                else if (decl * d = by_long(name, true))
                    given.push_back({d, "", true});
                else
                    problems.push_back("unknown " + a);
                continue;
            }
            if (decl * d = by_short(a[1], false))
            {
                if (a[2] == '=')
                {
                    if (a.size() == 3)
                        problems.push_back("empty " + a);
                    else
                        given.push_back({d, a.substr(3), false});
                }
                else
                    given.push_back({d, a.substr(2), false});
                continue;
            }
            for (size_t j = 1; j < a.size(); ++j)
                if (decl * d = by_short(a[j], true))
                    given.push_back({d, "", false});
                else
                    problems.push_back("unknown in " + a);
        }
        if (special == outcome::request)
            return special;
        if (special == outcome::error)
            return bad("request");
        if (!problems.empty())
            return bad(problems[0]);
        for (auto & [d, value, by_long_id] : given)
        {
            size_t const id = d - ds.data();
            spelled.insert({id, by_long_id});
            bool const first = seen[id]++ == 0;
            if (!first && !d->list)
                return bad(d->flag ? "repeated flag" : "repeated option");
            if (first)
                d->clear();
            if (!d->set(value))
                return bad("value " + value);
        }
        for (size_t k = 0; k < ds.size(); ++k)
            if (ds[k].required && !seen[k])
                return bad("required");
        if (subcommands && !pos.empty())
            return bad("too many");
        if (special == outcome::sub)
            return special;
        if (subcommands)
            return outcome::error;
        size_t k = 0;
        if (positionals == 3)
        {
            if (k == pos.size())
                return bad("too few");
            if (!read(v.number, pos[k++]))
                return bad("number");
        }
        if (positionals >= 1)
        {
            if (k == pos.size())
                return bad("too few");
            v.pos = pos[k++];
        }
        if (positionals == 2)
        {
            if (k == pos.size())
                return bad("too few");
            v.rest.assign(pos.begin() + k, pos.end());
            k = pos.size();
        }
        if (k != pos.size())
            return bad("too many");
        return outcome::ok;
    }
};

char const * const names[] = {"ok", "error", "request", "sub"};

[[noreturn]] void report(char const * key, strings const & args, std::string const & more)
{
    std::string m = std::string{"\nFUZZ-VIOLATION "} + key + ": " + more + " for";
    for (auto const & a : args)
        m += " [" + a + "]";
    m += "\n";
    fprintf(stderr, "%s", m.c_str());
    std::abort();
}

struct result
{
    outcome o;
    std::string what;
    strings values;
    strings set;
};

result library(strings const & args, unsigned bits, int positionals, bool subs, int order)
{
    variables lib, dummy;
    std::vector<decl> ds = declarations(lib, dummy, bits);
    result r{outcome::ok, {}, {}, {}};
    inside = true;
    try
    {
        sharg::parser p{"app", args, sharg::update_notifications::off, subs ? strings{"sub", "s"} : strings{}};
        auto pos = [&]
        {
            if (positionals == 3)
                p.add_positional_option(lib.number, sharg::config{});
            if (positionals >= 1)
                p.add_positional_option(lib.pos, sharg::config{});
            if (positionals == 2)
                p.add_positional_option(lib.rest, sharg::config{});
        };
        if (order == 1)
            pos();
        if (order == 0)
            for (size_t k = 0; k < ds.size(); ++k)
                ds[k].declare(p);
        else
            for (size_t k = ds.size(); k-- > 0;)
                ds[k].declare(p);
        if (order != 1)
            pos();
        p.parse();
        for (auto & d : ds)
            for (bool l : {false, true})
                if (l ? !d.long_id.empty() : d.short_id != '\0')
                {
                    bool const b = l ? p.is_option_set(d.long_id) : p.is_option_set(d.short_id);
                    r.set.push_back(std::string{b ? "1" : "0"});
                }
        if (subs)
        {
            r.o = outcome::sub;
            p.get_sub_parser();
        }
    }
    catch (exit_called const & e)
    {
        r.o = outcome::request;
        if (e.code != 0)
            report("c09", args, "exit code " + std::to_string(e.code));
    }
    catch (sharg::design_error const & e)
    {
        // without a subcommand there is no sub-parser
        r.o = outcome::error;
        r.what = e.what();
        if (!subs)
            report("c09", args, std::string{"design_error: "} + e.what());
    }
    catch (sharg::parser_error const & e)
    {
        r.o = outcome::error;
        r.what = e.what();
    }
    catch (std::exception const & e)
    {
        report("c09", args, std::string{"foreign exception: "} + e.what());
    }
    inside = false;
    r.values = snapshot(lib);
    return r;
}

} // namespace

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    std::cout.rdbuf(&nothing);
    std::cerr.rdbuf(&nothing);
    setenv("SHARG_NO_VERSION_CHECK", "1", 1);
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const * data, size_t size)
{
    if (size < 2)
        return 0;
    static char const * const oracle = std::getenv("FUZZ_ORACLE") ? std::getenv("FUZZ_ORACLE") : "c09";
    unsigned const bits = data[0] | data[1] << 8;
    bool const subs = (bits >> 11 & 3) == 3;
    int const positionals = subs ? 0 : bits >> 13 & 3;
    strings args{"app"};
    if (size > 2)
    {
        std::string all(reinterpret_cast<char const *>(data) + 2, size - 2);
        std::replace(all.begin(), all.end(), '\0', '0'); // cannot be part of an argument
        for (size_t b = 0; b <= all.size();)
        {
            size_t e = std::min(all.find('\n', b), all.size());
            args.push_back(all.substr(b, e - b));
            b = e + 1;
        }
    }

    result a = library(args, bits, positionals, subs, 0);
    std::string_view const want{oracle};

    if (want == "c02")
    {
        for (int order : {1, 2})
        {
            result b = library(args, bits, positionals, subs, order);
            if ((a.o == outcome::error) != (b.o == outcome::error))
                report("c02", args,
                       "declaration order matters: " + std::string{names[int(a.o)]} + " " + a.what + " / " + names[int(b.o)] + " " + b.what);
            if (a.o == outcome::ok && a.values != b.values)
                report("c02", args, "values depend on the declaration order");
        }
        return 0;
    }
    if (want == "c09")
        return 0;

    variables lib, v;
    std::vector<decl> ds = declarations(lib, v, bits);
    reference ref{ds, v, subs, positionals};
    outcome o = ref.run(args);
    if (want == "c03" && a.o != outcome::error && o == outcome::error)
        report("c03", args, "accepted (" + std::string{names[int(a.o)]} + ") although wrong: " + ref.why);
    if (want == "c01")
    {
        if (a.o != o && o != outcome::error)
            report("c01", args, "expected " + std::string{names[int(o)]} + " got " + names[int(a.o)] + " " + a.what);
        if (a.o == o && (o == outcome::ok || o == outcome::sub) && a.values != snapshot(v))
        {
            strings w = snapshot(v);
            size_t k = 0;
            while (a.values[k] == w[k])
                ++k;
            report("c01", args, "variable " + std::to_string(k) + " is " + a.values[k] + " instead of " + w[k]);
        }
    }
    if (want == "c11" && a.o == o && (o == outcome::ok || o == outcome::sub))
    {
        size_t n = 0;
        for (size_t k = 0; k < ds.size(); ++k)
            for (bool l : {false, true})
                if (l ? !ds[k].long_id.empty() : ds[k].short_id != '\0')
                {
                    bool const given = ref.spelled.contains({k, l});
                    if (a.set[n] != (given ? "1" : "0"))
                        report("c11", args, (l ? "--" + ds[k].long_id : std::string{'-', ds[k].short_id}) + (given ? " was given, reported as not set" : " was not given, reported as set"));
                    ++n;
                }
    }
    return 0;
}
