// Value types of the driver; compiled once per GROUP.
#include "driver.hpp"

#include <list>
#include <cmath>
#include <fstream>

#if GROUP == 6
// Types whose value names come from a file named by the environment (lines: kind, encoded name, value).
namespace dyn
{
inline std::vector<std::pair<std::string_view, long long>> load(std::string const & kind)
{
    std::vector<std::pair<std::string, long long>> rows;
    char const * path = std::getenv("DRV_TABLE");
    std::ifstream f{path ? path : ""};
    std::string l;
    while (std::getline(f, l))
    {
        drv::tokens const t = drv::split(l, ' ');
        if (t.at(0) == kind)
            rows.emplace_back(drv::dec(t.at(1)), static_cast<long long>(std::strtoull(t.at(2).c_str(), nullptr, 10)));
    }
    // the names lie side by side, without terminators, in memory of exactly their size
    size_t n = 0;
    for (auto const & [name, v] : rows)
        n += name.size();
    char * const mem = new char[n ? n : 1]; // never freed: the names are views
    std::vector<std::pair<std::string_view, long long>> r;
    size_t at = 0;
    for (auto const & [name, v] : rows)
    {
        std::memcpy(mem + at, name.data(), name.size());
        r.emplace_back(std::string_view{mem + at, name.size()}, v);
        at += name.size();
    }
    return r;
}
template <typename map_t>
map_t table(std::string const & kind)
{
    map_t m{};
    for (auto const & [name, v] : load(kind))
    {
        if constexpr (requires { typename map_t::mapped_type::raw; })
            m.emplace(name, typename map_t::mapped_type{static_cast<int>(v)});
        else
            m.emplace(name, static_cast<typename map_t::mapped_type>(v));
    }
    return m;
}
enum class a : int8_t
{
};
inline auto enumeration_names(a)
{
    return table<std::unordered_map<std::string_view, a>>("a");
}
enum class c : int
{
};
inline auto enumeration_names(c)
{
    return table<std::unordered_map<std::string_view, c>>("c");
}
struct s // no order
{
    using raw = int;
    int v{};
    friend bool operator==(s const &, s const &) = default;
};
inline auto enumeration_names(s)
{
    return table<std::unordered_map<std::string_view, s>>("s");
}
} // namespace dyn
namespace dyn3
{
enum b : unsigned long long
{
};
} // namespace dyn3
template <>
struct sharg::custom::parsing<dyn3::b>
{
    static inline std::map<std::string_view, dyn3::b> const enumeration_names =
        dyn::table<std::map<std::string_view, dyn3::b>>("b");
};
#endif

namespace drv
{

template <typename T>
concept listlike = requires { typename T::value_type; } && !std::is_same_v<T, std::string>
                   && !std::is_same_v<T, std::filesystem::path>;

template <typename T>
std::string show(T const & v)
{
    if constexpr (std::is_same_v<T, bool>)
        return v ? "b1" : "b0";
    else if constexpr (std::is_floating_point_v<T>)
    {
        char buf[128];
        if (std::isnan(v))
            return std::signbit(v) ? "f-nan" : "fnan";
        std::snprintf(buf, sizeof(buf), "f%La", static_cast<long double>(v));
        return buf;
    }
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
        return "i" + std::to_string(static_cast<long long>(v));
    else if constexpr (std::is_integral_v<T>)
        return "i" + std::to_string(static_cast<unsigned long long>(v));
    else if constexpr (std::is_same_v<T, std::string>)
        return "s" + enc(v);
    else if constexpr (std::is_same_v<T, std::filesystem::path>)
        return "s" + enc(v.native());
    else if constexpr (std::is_same_v<T, userns::point>)
        return "p" + std::to_string(v.x) + ":" + std::to_string(v.y);
    else if constexpr (std::is_same_v<T, userns::base>)
        return std::string{"n"} + v.c;
    else if constexpr (requires { typename T::raw; })
        return "e" + std::to_string(v.v);
    else if constexpr (std::is_unsigned_v<std::underlying_type_t<T>>)
        return "e" + std::to_string(static_cast<unsigned long long>(v));
    else
        return "e" + std::to_string(static_cast<int>(v));
}

template <typename T>
T from_init(std::string const & s)
{
    if constexpr (std::is_same_v<T, bool>)
        return s == "1";
    else if constexpr (std::is_same_v<T, long double>)
        return std::strtold(s.c_str(), nullptr);
    else if constexpr (std::is_floating_point_v<T>)
        return static_cast<T>(std::strtod(s.c_str(), nullptr));
    else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>)
        return static_cast<T>(std::strtoll(s.c_str(), nullptr, 10));
    else if constexpr (std::is_integral_v<T>)
        return static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
    else if constexpr (std::is_same_v<T, std::string>)
        return s;
    else if constexpr (std::is_same_v<T, std::filesystem::path>)
        return std::filesystem::path{s};
    else if constexpr (std::is_same_v<T, userns::point>)
    {
        userns::point p{};
        std::sscanf(s.c_str(), "%d:%d", &p.x, &p.y);
        return p;
    }
    else if constexpr (std::is_same_v<T, userns::base>)
        return userns::base{s.at(0)};
    else if constexpr (requires { typename T::raw; })
        return T{static_cast<int>(std::strtol(s.c_str(), nullptr, 10))};
    else
        return static_cast<T>(std::strtoull(s.c_str(), nullptr, 10));
}

// Builds one link of a validator chain. Fields are separated by ',' and encoded.
template <typename T>
any_validator<T> make_link(std::string const & spec)
{
    tokens f = split(spec, ',');
    for (auto & s : f)
        s = dec(s);
    std::string const kind = f.at(0);
    f.erase(f.begin());

    auto wrap = [](auto v)
    {
        any_validator<T> a{};
        a.msg = v.get_help_page_message();
        a.fn = [v](T const & x)
        {
            v(x);
        };
        return a;
    };

    if (kind == "probe") // records the call; throws as told: probe,<id>,<what>
    {
        any_validator<T> a{};
        std::string const id = f.at(0), what = f.at(1);
        a.msg = "probe " + id.substr(id.find('.') + 1) + "."; // the message does not depend on the experiment
        a.fn = [id, what](T const & x)
        {
            std::string d;
            if constexpr (listlike<T>)
            {
                for (auto const & e : x)
                    d += show<typename T::value_type>(e) + ",";
            }
            else
                d = show(x);
            current_sink->line("P " + enc(id) + " " + enc(d));
            if (what == "validation")
                throw sharg::validation_error{"probe says no"};
            if (what == "runtime")
                throw std::runtime_error{"probe runtime"};
            if (what == "logic")
                throw std::invalid_argument{"probe logic"};
            if (what == "badalloc")
                throw std::bad_alloc{};
            if (what == "design")
                throw sharg::design_error{"probe design"};
            if (what == "user")
                throw sharg::user_input_error{"probe user"};
        };
        return a;
    }

    constexpr bool is_list = listlike<T>;
    auto elem_type = []
    {
        if constexpr (listlike<T>)
            return std::type_identity<typename T::value_type>{};
        else
            return std::type_identity<T>{};
    }();
    using E = typename decltype(elem_type)::type;
    (void)is_list;

    if (kind == "list")
    {
        if constexpr (sharg::parsable<E> && std::equality_comparable<E> && sharg::ostreamable<E> && !std::is_same_v<T, std::vector<bool>>)
        {
            std::vector<E> vals;
            for (auto const & s : f)
                vals.push_back(from_init<E>(s));
            // one of the constructors
            if (vals.size() == 2)
                return wrap(sharg::value_list_validator<E>{vals[0], vals[1]});
            if (vals.size() == 3)
            {
                if constexpr (std::is_same_v<E, std::string>)
                    if ((vals[0] + vals[1] + vals[2]).find('\0') == std::string::npos) // C strings
                        return wrap(sharg::value_list_validator{vals[0].c_str(), vals[1].c_str(), vals[2].c_str()});
                return wrap(sharg::value_list_validator{std::list<E>{vals.begin(), vals.end()}});
            }
            return wrap(sharg::value_list_validator<E>{vals});
        }
    }
    if (kind == "range")
    {
        if constexpr (std::is_arithmetic_v<E> && !std::is_same_v<E, bool>)
        {
            return wrap(sharg::arithmetic_range_validator<E>{from_init<E>(f.at(0)), from_init<E>(f.at(1))});
        }
    }
    if constexpr (std::is_arithmetic_v<E> && !std::is_same_v<E, bool> && !std::is_same_v<E, char>)
    {
        if (kind == "xrange" || kind == "xlist") // of another type than the value: xrange,<type>,<values>
        {
            auto make = [&]<typename V>(V)
            {
                std::vector<V> vals;
                for (size_t i = 1; i < f.size(); ++i)
                    vals.push_back(from_init<V>(f[i]));
                if (kind == "xrange")
                    return wrap(sharg::arithmetic_range_validator<V>{vals.at(0), vals.at(1)});
                return wrap(sharg::value_list_validator<V>{vals});
            };
            if (f.at(0) == "i32")
                return make(int32_t{});
            if (f.at(0) == "u32")
                return make(uint32_t{});
            if (f.at(0) == "i64")
                return make(int64_t{});
            if (f.at(0) == "u64")
                return make(uint64_t{});
            if (f.at(0) == "u8")
                return make(uint8_t{});
            if (f.at(0) == "i16")
                return make(int16_t{});
            if (f.at(0) == "f64")
                return make(double{});
        }
    }
    if constexpr (std::is_same_v<E, std::string> || std::is_same_v<E, std::filesystem::path>)
    {
        if (kind == "regex")
            return wrap(sharg::regex_validator{f.at(0)});
        if constexpr (std::is_same_v<E, std::filesystem::path>)
            if (kind == "list1") // one value, types deduced
                return wrap(sharg::value_list_validator{from_init<E>(f.at(0))});
        if (kind == "listn") // several strings, types deduced
            return wrap(sharg::value_list_validator{f});
    }
    if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::filesystem::path>
                  || std::is_same_v<T, std::vector<std::string>> || std::is_same_v<T, std::vector<std::filesystem::path>>)
    {
        if (kind == "infile")
            return wrap(sharg::input_file_validator{f});
        if (kind == "infilev" || kind == "outfilev") // the constructors taking the extensions as arguments
        {
            auto make = [&](auto &&... ext)
            {
                if (kind == "infilev")
                    return wrap(sharg::input_file_validator{std::vector<std::string>{ext...}});
                return wrap(sharg::output_file_validator{ext...});
            };
            switch (f.size())
            {
                case 1: return make(f[0]);
                case 2: return make(f[0], f[1]);
                default: return make(f.at(0), f.at(1), f.at(2));
            }
        }
        if (kind == "indir")
            return wrap(sharg::input_directory_validator{});
        if (kind == "outdir")
            return wrap(sharg::output_directory_validator{});
        if (kind == "outfile")
        {
            auto mode = f.at(0) == "open" ? sharg::output_file_open_options::open_or_create
                                          : sharg::output_file_open_options::create_new;
            f.erase(f.begin());
            return wrap(sharg::output_file_validator{mode, f});
        }
    }
    throw std::logic_error{"driver: validator " + kind + " not available for this type"};
}

template <typename T>
any_validator<T> make_validator(std::string const & spec)
{
    tokens links = split(spec, '|');
    using sharg::operator|;
    auto erase = [](auto chained)
    {
        any_validator<T> a{};
        a.msg = chained.get_help_page_message();
        a.fn = [chained](T const & x)
        {
            chained(x);
        };
        return a;
    };
    if (links.size() == 3) // chained in one expression
        return erase(make_link<T>(links[0]) | make_link<T>(links[1]) | make_link<T>(links[2]));
    if (links.size() == 4) // chains of chains
        return erase((make_link<T>(links[0]) | make_link<T>(links[1]))
                     | (make_link<T>(links[2]) | make_link<T>(links[3])));
    any_validator<T> res = make_link<T>(links.at(0));
    for (size_t i = 1; i < links.size(); ++i)
    {
        res = erase(res | make_link<T>(links[i])); // the chain adaptor of sharg
    }
    return res;
}

template <typename T>
struct slot : slot_base
{
    T value{};

    explicit slot(tokens const & init)
    {
        if constexpr (listlike<T>)
            for (auto const & s : init)
                value.push_back(from_init<typename T::value_type>(s));
        else if (!init.empty())
            value = from_init<T>(init[0]);
    }

    std::string dump() const override
    {
        if constexpr (listlike<T>)
        {
            std::string r = "[";
            for (auto const & e : value)
                r += show<typename T::value_type>(e) + ",";
            return r + "]";
        }
        else
            return show(value);
    }

    template <typename C>
    static void fill(C & c, attrs const & a)
    {
        c.short_id = a.short_id;
        c.long_id = a.long_id;
        c.description = a.description;
        c.default_message = a.default_message;
        c.advanced = a.advanced;
        c.hidden = a.hidden;
        c.required = a.required;
    }

    void add_option(sharg::parser & p, attrs const & a) override
    {
        if (a.validator == "none")
        {
            sharg::config c{};
            fill(c, a);
            p.add_option(value, c);
        }
        else
        {
            sharg::config<any_validator<T>> c{};
            c.validator = make_validator<T>(a.validator);
            fill(c, a);
            p.add_option(value, c);
        }
    }

    void add_positional(sharg::parser & p, attrs const & a) override
    {
        if (a.validator == "none")
        {
            sharg::config c{};
            fill(c, a);
            p.add_positional_option(value, c);
        }
        else
        {
            sharg::config<any_validator<T>> c{};
            c.validator = make_validator<T>(a.validator);
            fill(c, a);
            p.add_positional_option(value, c);
        }
    }

    void add_flag(sharg::parser & p, attrs const & a) override
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            sharg::config c{};
            fill(c, a);
            p.add_flag(value, c);
        }
        else
            slot_base::add_flag(p, a);
    }

    void validate(std::string const & spec) override
    {
        make_validator<T>(spec)(value);
    }

    std::string validator_message(std::string const & spec) override
    {
        return make_validator<T>(spec).get_help_page_message();
    }
};

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)

std::unique_ptr<slot_base> CAT(make_slot_, GROUP)(std::string const & type, tokens const & init)
{
#define T(NAME, ...) \
    if (type == NAME) \
        return std::make_unique<slot<__VA_ARGS__>>(init);
#if GROUP == 0
    T("bool", bool)
    T("str", std::string)
    T("L_str", std::vector<std::string>)
    T("i32", int32_t)
    T("L_i32", std::vector<int32_t>)
#elif GROUP == 1
    T("i8", int8_t)
    T("u8", uint8_t)
    T("i16", int16_t)
    T("u16", uint16_t)
    T("L_i8", std::vector<int8_t>)
#elif GROUP == 2
    T("u32", uint32_t)
    T("i64", int64_t)
    T("u64", uint64_t)
    T("L_u64", std::vector<uint64_t>)
    T("L_u8", std::vector<uint8_t>)
#elif GROUP == 3
    T("f32", float)
    T("f64", double)
    T("ld", long double)
    T("L_f64", std::vector<double>)
    T("L_bool", std::vector<bool>)
#elif GROUP == 4
    T("path", std::filesystem::path)
    T("L_path", std::vector<std::filesystem::path>)
    T("color", userns::color)
    T("shape", thirdparty::shape)
    T("L_color", std::vector<userns::color>)
#elif GROUP == 5
    T("chr", char)
    T("point", userns::point)
    T("L_point", std::vector<userns::point>)
    T("base", userns::base)
    T("L_base", std::vector<userns::base>)
    T("D_str", std::deque<std::string>)
    T("LL_i32", std::list<int32_t>)
#elif GROUP == 6
    T("dyna", dyn::a)
    T("dynb", dyn3::b)
    T("dync", dyn::c)
    T("dyns", dyn::s)
    T("L_dyna", std::vector<dyn::a>)
    T("L_dyns", std::vector<dyn::s>)
#endif
    return nullptr;
}

} // namespace drv
