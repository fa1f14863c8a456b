// Runs cases ("programs" over the public API of sharg), each in a process of its own, and records what happens.
// usage: driver CASES OUT [--mt K]
#include "driver.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <pty.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <grp.h>
#include <sys/wait.h>
#include <termios.h>
#include <thread>
#include <unistd.h>

namespace drv
{

std::string enc(std::string_view s)
{
    static char const * hex = "0123456789abcdef";
    if (s.empty())
        return "%";
    std::string r;
    for (unsigned char c : s)
    {
        if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.'
            || c == '/' || c == ':' || c == '=')
            r += static_cast<char>(c);
        else
        {
            r += '%';
            r += hex[c >> 4];
            r += hex[c & 15];
        }
    }
    return r;
}

std::string dec(std::string_view s)
{
    if (s == "%")
        return {};
    std::string r;
    auto v = [](char c)
    {
        return c <= '9' ? c - '0' : c - 'a' + 10;
    };
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '%' && i + 2 < s.size())
        {
            r += static_cast<char>(v(s[i + 1]) * 16 + v(s[i + 2]));
            i += 2;
        }
        else
            r += s[i];
    }
    return r;
}

tokens split(std::string const & s, char sep)
{
    tokens r;
    size_t b = 0;
    while (true)
    {
        size_t e = s.find(sep, b);
        if (e == std::string::npos)
        {
            r.push_back(s.substr(b));
            return r;
        }
        r.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}

static void write_all(int fd, char const * p, size_t n)
{
    while (n > 0)
    {
        ssize_t k = ::write(fd, p, n);
        if (k < 0)
        {
            if (errno == EINTR)
                continue;
            return;
        }
        p += k;
        n -= static_cast<size_t>(k);
    }
}

void sink::line(std::string const & s)
{
    std::string const l = s + "\n";
    if (fd >= 0)
        write_all(fd, l.data(), l.size());
    else if (buf)
        *buf += l;
}

thread_local sink * current_sink{nullptr};
static int global_log_fd{-1}; // the stand-in for system() logs here (any thread)

struct system_config
{
    int wget{0};
    int curl{0};
    int call{0};
    int delay_ms{0};
    bool write{false};
    std::string content{};
};
// Never freed: the background thread of the library may outlive everything.
static std::atomic<system_config const *> sys_config{new system_config{}};
static std::atomic<int> sys_calls{0};

static std::string demangle(char const * n)
{
    int st{};
    char * d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = st == 0 ? d : n;
    std::free(d);
    return r;
}

static std::string describe_exception()
{
    std::string cls{"unknown"}, what{}, base{"other"};
    try
    {
        throw;
    }
    catch (sharg::parser_error const & e)
    {
        cls = demangle(typeid(e).name());
        what = e.what();
        base = "parser";
        if (dynamic_cast<sharg::design_error const *>(&e))
            base = "design";
    }
    catch (std::exception const & e)
    {
        cls = demangle(typeid(e).name());
        what = e.what();
        base = "std";
    }
    catch (...)
    {}
    return enc(cls) + " " + base + " " + enc(what);
}

static void snapshot(sink & out, std::string const & tag, std::filesystem::path const & root)
{
    namespace fs = std::filesystem;
    std::vector<fs::path> todo{root}, all;
    while (!todo.empty())
    {
        fs::path p = todo.back();
        todo.pop_back();
        all.push_back(p);
        std::error_code ec;
        if (fs::symlink_status(p, ec).type() == fs::file_type::directory)
        {
            fs::directory_iterator it{p, ec}, end{};
            if (!ec)
                for (; it != end; it.increment(ec))
                    todo.push_back(it->path());
        }
    }
    std::sort(all.begin(), all.end());
    for (auto const & p : all)
    {
        struct stat st{};
        if (::lstat(p.c_str(), &st) != 0)
            continue;
        std::string type = S_ISREG(st.st_mode) ? "f" : S_ISDIR(st.st_mode) ? "d" : S_ISLNK(st.st_mode) ? "l" : "o";
        std::string content;
        if (type == "f")
        {
            std::ifstream f{p, std::ios::binary};
            content.assign(std::istreambuf_iterator<char>{f}, {});
        }
        else if (type == "l")
        {
            std::error_code ec;
            content = fs::read_symlink(p, ec).native();
        }
        out.line("F " + tag + " " + enc(p.lexically_relative(root).native()) + " " + type + " "
                 + std::to_string(st.st_mode & 07777) + " " + std::to_string(st.st_ino) + " "
                 + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) + " " + enc(content));
    }
}

struct interp
{
    sink & out;
    std::map<std::string, std::unique_ptr<slot_base>> slots{};
    std::map<std::string, std::unique_ptr<sharg::parser>> owned{};
    std::map<std::string, sharg::parser *> parsers{};

    sharg::parser & P(std::string const & n)
    {
        auto it = parsers.find(n);
        if (it == parsers.end() || it->second == nullptr)
            throw std::logic_error{"driver: no parser"};
        return *it->second;
    }

    slot_base & S(std::string const & n)
    {
        return *slots.at(n);
    }

    static attrs read_attrs(tokens const & t, size_t i)
    {
        attrs a{};
        std::string const s = dec(t.at(i));
        a.short_id = s.empty() ? '\0' : s[0];
        a.long_id = dec(t.at(i + 1));
        a.description = dec(t.at(i + 2));
        a.default_message = dec(t.at(i + 3));
        std::string const fl = t.at(i + 4);
        a.advanced = fl.find('a') != std::string::npos;
        a.hidden = fl.find('h') != std::string::npos;
        a.required = fl.find('r') != std::string::npos;
        a.validator = t.at(i + 5);
        return a;
    }

    std::string run(tokens const & t)
    {
        namespace fs = std::filesystem;
        std::string const & op = t.at(0);
        auto d = [&](size_t i)
        {
            return dec(t.at(i));
        };
        auto list = [&](size_t i)
        {
            tokens r;
            for (; i < t.size(); ++i)
                r.push_back(dec(t[i]));
            return r;
        };
        if (op == "env")
            ::setenv(d(1).c_str(), d(2).c_str(), 1);
        else if (op == "unset")
            ::unsetenv(d(1).c_str());
        else if (op == "chdir")
        {
            if (::chdir(d(1).c_str()) != 0)
                throw std::logic_error{"driver: chdir"};
        }
        else if (op == "user")
        {
            (void)!::setgroups(0, nullptr);
            if (::setgid(65534) != 0 || ::setuid(65534) != 0)
                throw std::logic_error{"driver: setuid"};
        }
        else if (op == "sys")
        {
            auto * cfg = new system_config{};
            cfg->wget = std::stoi(t.at(1));
            cfg->curl = std::stoi(t.at(2));
            cfg->call = std::stoi(t.at(3));
            cfg->delay_ms = std::stoi(t.at(4));
            cfg->write = t.at(5) != "-";
            if (cfg->write)
                cfg->content = d(5);
            sys_config.store(cfg, std::memory_order_release);
        }
        else if (op == "slot")
        {
            tokens const init = list(3);
            std::unique_ptr<slot_base> s;
            for (auto f : {make_slot_0, make_slot_1, make_slot_2, make_slot_3, make_slot_4, make_slot_5, make_slot_6})
                if (!s)
                    s = f(t.at(2), init);
            if (!s)
                throw std::logic_error{"driver: unknown type"};
            slots[t.at(1)] = std::move(s);
        }
        else if (op == "parser") // parser N app upd nsub sub... argv...
        {
            size_t const nsub = std::stoul(t.at(4));
            tokens subs, rest = list(5);
            subs.assign(rest.begin(), rest.begin() + nsub);
            rest.erase(rest.begin(), rest.begin() + nsub);
            auto upd = t.at(3) == "1" ? sharg::update_notifications::on : sharg::update_notifications::off;
            owned[t[1]] = std::make_unique<sharg::parser>(d(2), rest, upd, subs);
            parsers[t[1]] = owned[t[1]].get();
        }
        else if (op == "cparser") // the same through argc/argv
        {
            size_t const nsub = std::stoul(t.at(4));
            tokens subs, rest = list(5);
            subs.assign(rest.begin(), rest.begin() + nsub);
            rest.erase(rest.begin(), rest.begin() + nsub);
            std::vector<char const *> av;
            for (auto const & s : rest)
                av.push_back(s.c_str());
            auto upd = t.at(3) == "1" ? sharg::update_notifications::on : sharg::update_notifications::off;
            owned[t[1]] = std::make_unique<sharg::parser>(d(2), static_cast<int>(av.size()), av.data(), upd, subs);
            parsers[t[1]] = owned[t[1]].get();
        }
        else if (op == "opt")
            S(t.at(2)).add_option(P(t.at(1)), read_attrs(t, 3));
        else if (op == "pos")
            S(t.at(2)).add_positional(P(t.at(1)), read_attrs(t, 3));
        else if (op == "flag")
            S(t.at(2)).add_flag(P(t.at(1)), read_attrs(t, 3));
        else if (op == "info")
        {
            auto & m = P(t.at(1)).info;
            std::string const f = t.at(2), v = d(3);
            if (f == "app_name")
                m.app_name = v;
            else if (f == "version")
                m.version = v;
            else if (f == "short_description")
                m.short_description = v;
            else if (f == "author")
                m.author = v;
            else if (f == "email")
                m.email = v;
            else if (f == "date")
                m.date = v;
            else if (f == "url")
                m.url = v;
            else if (f == "short_copyright")
                m.short_copyright = v;
            else if (f == "long_copyright")
                m.long_copyright = v;
            else if (f == "citation")
                m.citation = v;
            else if (f == "man_page_title")
                m.man_page_title = v;
            else if (f == "man_page_section")
                m.man_page_section = static_cast<unsigned>(std::stoul(v));
            else if (f == "description")
                m.description.push_back(v);
            else if (f == "synopsis")
                m.synopsis.push_back(v);
            else if (f == "examples")
                m.examples.push_back(v);
            else
                throw std::logic_error{"driver: info field"};
        }
        else if (op == "section")
            P(t.at(1)).add_section(d(2), t.at(3) == "1");
        else if (op == "subsection")
            P(t.at(1)).add_subsection(d(2), t.at(3) == "1");
        else if (op == "line")
            P(t.at(1)).add_line(d(2), t.at(3) == "1", t.at(4) == "1");
        else if (op == "item")
            P(t.at(1)).add_list_item(d(2), d(3), t.at(4) == "1");
        else if (op == "subcmds")
            P(t.at(1)).add_subcommands(list(2));
        else if (op == "parse")
            P(t.at(1)).parse();
        else if (op == "issetc")
            return P(t.at(1)).is_option_set(d(2)[0]) ? "1" : "0";
        else if (op == "issets")
        {
            std::string const id = d(2);
            bool const set = P(t.at(1)).is_option_set(id);
            // the same as a C string
            if (id.find('\0') == std::string::npos && P(t.at(1)).is_option_set(id.c_str()) != set)
                return "differs";
            return set ? "1" : "0";
        }
        else if (op == "sub")
        {
            sharg::parser & s = P(t.at(1)).get_sub_parser();
            parsers[t.at(2)] = &s;
            return enc(s.info.app_name);
        }
        else if (op == "move") // move FROM TO [del]
        {
            sharg::parser & from = P(t.at(1));
            auto n = std::make_unique<sharg::parser>(std::move(from));
            if (t.size() > 3 && t[3] == "del")
            {
                owned.erase(t[1]);
                parsers.erase(t[1]);
            }
            owned[t.at(2)] = std::move(n);
            parsers[t[2]] = owned[t[2]].get();
        }
        else if (op == "assign") // assign FROM TO [del]
        {
            if (!parsers.contains(t.at(1))) // nothing to take the place of the target
            {
                parsers.erase(t.at(2));
                owned.erase(t.at(2));
            }
            if (parsers.contains(t.at(1)) && !parsers.contains(t.at(2)))
            {
                owned[t[2]] = std::make_unique<sharg::parser>(std::move(P(t[1])));
                parsers[t[2]] = owned[t[2]].get();
            }
            else
                P(t.at(2)) = std::move(P(t.at(1)));
            if (t.size() > 3 && t[3] == "del")
            {
                owned.erase(t[1]);
                parsers.erase(t[1]);
            }
        }
        else if (op == "del")
        {
            parsers.erase(t.at(1));
            owned.erase(t.at(1));
        }
        else if (op == "vali")
            S(t.at(1)).validate(t.at(2));
        else if (op == "vmsg")
            return enc(S(t.at(1)).validator_message(t.at(2)));
        else if (op == "val")
            return S(t.at(1)).dump();
        else if (op == "mkdir")
            fs::create_directories(d(1));
        else if (op == "mkfile")
        {
            std::ofstream f{d(1), std::ios::binary};
            f << d(2);
        }
        else if (op == "chmod")
            ::chmod(d(1).c_str(), static_cast<mode_t>(std::stoul(t.at(2), nullptr, 8)));
        else if (op == "chown")
        {
            if (::lchown(d(1).c_str(), 65534, 65534) != 0)
                throw std::logic_error{"driver: chown"};
        }
        else if (op == "symlink")
            fs::create_symlink(d(1), d(2));
        else if (op == "mkfifo")
            ::mkfifo(d(1).c_str(), 0666);
        else if (op == "rm")
            fs::remove(d(1));
        else if (op == "cookie") // cookie PATH AGE_SECONDS DECISION
        {
            auto now = std::chrono::duration_cast<std::chrono::seconds>(
                           std::chrono::system_clock::now().time_since_epoch())
                           .count();
            std::ofstream f{d(1)};
            f << (now - std::stoll(t.at(2))) << '\n' << d(3);
        }
        else if (op == "now")
            return std::to_string(std::chrono::duration_cast<std::chrono::seconds>(
                                      std::chrono::system_clock::now().time_since_epoch())
                                      .count());
        else if (op == "clock")
            return std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(
                                      std::chrono::steady_clock::now().time_since_epoch())
                                      .count());
        else if (op == "snap")
            snapshot(out, t.at(1), d(2));
        else if (op == "sleep")
            std::this_thread::sleep_for(std::chrono::milliseconds{std::stoi(t.at(1))});
        else if (op == "syscalls")
            return std::to_string(sys_calls.load());
        else if (op == "rlimit_fsize")
        {
            ::signal(SIGXFSZ, SIG_IGN);
            struct rlimit r{std::stoul(t.at(1)), std::stoul(t.at(1))};
            ::setrlimit(RLIMIT_FSIZE, &r);
        }
        else if (op == "threads") // number of threads of this process
        {
            size_t n = 0;
            for ([[maybe_unused]] auto const & e : fs::directory_iterator{"/proc/self/task"})
                ++n;
            return std::to_string(n);
        }
        else if (op == "tty" || op == "stdin")
        {}
        else
            throw std::logic_error{"driver: unknown op " + op};
        return "";
    }

    void values(char const * tag)
    {
        for (auto const & [n, s] : slots)
            out.line(std::string{tag} + " " + n + " " + s->dump());
    }

    void all(std::vector<std::string> const & lines)
    {
        size_t i = 0;
        for (auto const & l : lines)
        {
            tokens const t = split(l, ' ');
            std::string const n = std::to_string(i++);
            if (t[0] == "parse" || t[0] == "vali" || t[0] == "del")
                out.line("B " + n + " " + t[0]);
            try
            {
                std::string const payload = run(t);
                out.line("R " + n + " ok " + payload);
            }
            catch (...)
            {
                out.line("R " + n + " exc " + describe_exception());
            }
        }
        values("V");
        out.line("Z");
    }
};

static interp * exiting_interp{nullptr};

struct one_case
{
    std::string id;
    std::vector<std::string> lines;
};

static std::string slurp(int fd, size_t limit)
{
    std::string r;
    ::lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t k;
    while (r.size() < limit && (k = ::read(fd, buf, sizeof(buf))) > 0)
        r.append(buf, static_cast<size_t>(k));
    return r;
}

static void emit(std::string & all, std::string const & id, std::string const & status, std::string const & log,
                 std::string const & o, std::string const & e)
{
    all += "CASE " + id + " " + status + "\n" + log;
    if (!log.empty() && log.back() != '\n')
        all += '\n';
    all += "OUT " + enc(o) + "\nERR " + enc(e) + "\nEND\n";
}

} // namespace drv

// Nothing the library hands to the shell is executed; the command is recorded and the configured result returned.
extern "C" int system(char const * command)
{
    using namespace drv;
    std::string const cmd = command ? command : "";
    sink s{global_log_fd, nullptr};
    s.line("S " + enc(cmd));
    sys_calls.fetch_add(1, std::memory_order_relaxed);
    system_config const & sys_cfg = *sys_config.load(std::memory_order_acquire);
    if (cmd.find("wget --version") != std::string::npos)
        return sys_cfg.wget;
    if (cmd.find("curl --version") != std::string::npos)
        return sys_cfg.curl;
    if (sys_cfg.delay_ms > 0)
        std::this_thread::sleep_for(std::chrono::milliseconds{sys_cfg.delay_ms});
    if (sys_cfg.write) // the simulated download tool writes its target, as the shell would see it
    {
        tokens words{""};
        bool in_word = false;
        for (size_t i = 0; i < cmd.size(); ++i)
        {
            char const c = cmd[i];
            if (c == '\'')
            {
                in_word = true;
                for (++i; i < cmd.size() && cmd[i] != '\''; ++i)
                    words.back() += cmd[i];
            }
            else if (c == '"')
            {
                in_word = true;
                for (++i; i < cmd.size() && cmd[i] != '"'; ++i)
                {
                    if (cmd[i] == '\\' && i + 1 < cmd.size())
                        ++i;
                    words.back() += cmd[i];
                }
            }
            else if (c == '\\' && i + 1 < cmd.size())
            {
                in_word = true;
                words.back() += cmd[++i];
            }
            else if (c == ' ')
            {
                if (in_word)
                    words.emplace_back();
                in_word = false;
            }
            else
            {
                in_word = true;
                words.back() += c;
            }
        }
        for (size_t i = 0; i + 1 < words.size(); ++i)
            if (words[i] == "-O" || words[i] == "-o")
            {
                std::ofstream f{words[i + 1], std::ios::binary};
                f << sys_cfg.content;
                break;
            }
    }
    s.line("SC " + std::to_string(sys_cfg.call));
    return sys_cfg.call;
}

int main(int argc, char ** argv)
{
    using namespace drv;
    if (argc < 3)
        return 2;
    int mt = 0;
    if (argc > 4 && std::string{argv[3]} == "--mt")
        mt = std::atoi(argv[4]);
    int hung = 0;
    int const max_hung = std::getenv("DRV_MAX_HUNG") ? std::atoi(std::getenv("DRV_MAX_HUNG")) : 1 << 30;
    unsigned const limit_s = std::getenv("DRV_ALARM") ? std::atoi(std::getenv("DRV_ALARM")) : 20;

    // libstdc++ fills this cache on first use, without synchronisation (every thread would write the same bytes)
    for (int c = 1; c < 256; ++c)
    {
        auto const & facet = std::use_facet<std::ctype<char>>(std::locale{});
        (void)facet.narrow(static_cast<char>(c), '\0');
        (void)facet.widen(static_cast<char>(c));
    }

    std::vector<one_case> cases;
    {
        std::ifstream f{argv[1]};
        std::string l;
        while (std::getline(f, l))
        {
            if (l.rfind("CASE ", 0) == 0)
                cases.push_back({l.substr(5), {}});
            else if (l != "END" && !l.empty())
                cases.back().lines.push_back(l);
        }
    }

    int const outfd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
    int const devnull = ::open("/dev/null", O_RDWR | O_CLOEXEC);
    int const log = ::memfd_create("log", MFD_CLOEXEC);
    int const so = ::memfd_create("out", MFD_CLOEXEC);
    int const se = ::memfd_create("err", MFD_CLOEXEC);
    if (outfd < 0 || log < 0 || so < 0 || se < 0 || devnull < 0)
        return 2;
    // a memfd has no position lock: only appends of concurrent threads are kept apart
    for (int fd : {log, so, se})
        (void)::fcntl(fd, F_SETFL, O_APPEND | O_RDWR);

    auto reset = [](int fd)
    {
        (void)!::ftruncate(fd, 0);
        ::lseek(fd, 0, SEEK_SET);
    };

    size_t const step = mt > 0 ? static_cast<size_t>(mt) : 1;
    for (size_t ci = 0; ci < cases.size(); ci += step)
    {
        reset(log);
        reset(so);
        reset(se);
        one_case const & c = cases[ci];
        int master = -1, slave = -1;
        int in_fd = devnull;
        std::string which = "ioe";
        bool close_in = false;
        for (auto const & l : c.lines) // "tty COLS INPUT [ioe]": stdin, stdout and stderr (or those named) are a terminal
        {
            tokens const t = split(l, ' ');
            if (t[0] == "tty")
            {
                struct winsize w{};
                w.ws_col = static_cast<unsigned short>(std::stoi(t.at(1)));
                w.ws_row = 24;
                struct termios tio{};
                if (::openpty(&master, &slave, nullptr, nullptr, &w) != 0)
                {
                    std::fprintf(stderr, "driver: no pty\n");
                    return 2;
                }
                ::tcgetattr(slave, &tio);
                tio.c_oflag &= ~static_cast<tcflag_t>(OPOST);
                tio.c_lflag &= ~static_cast<tcflag_t>(ECHO);
                ::tcsetattr(slave, TCSANOW, &tio);
                ::fcntl(master, F_SETFL, O_NONBLOCK);
                std::string const input = dec(t.at(2));
                if (t.size() > 3) // only some of them
                    which = t[3];
                if (!input.empty())
                    (void)!::write(master, input.data(), input.size());
                (void)!::write(master, "\x04\x04\x04\x04", 4); // then the end of the input: no read waits for ever
            }
            else if (t[0] == "stdin")
            {
                in_fd = ::memfd_create("in", MFD_CLOEXEC);
                close_in = true;
                std::string const input = dec(t.at(1));
                write_all(in_fd, input.data(), input.size());
                ::lseek(in_fd, 0, SEEK_SET);
            }
        }

        pid_t const pid = ::fork();
        if (pid < 0)
            return 2;
        if (pid == 0)
        {
            global_log_fd = log;
            auto is_tty = [&](char c)
            {
                return slave >= 0 && which.find(c) != std::string::npos;
            };
            ::dup2(is_tty('i') ? slave : in_fd, 0);
            ::dup2(is_tty('o') ? slave : so, 1);
            ::dup2(is_tty('e') ? slave : se, 2);
            ::alarm(limit_s);
            if (mt > 0)
            {
                size_t const n = std::min(step, cases.size() - ci);
                std::vector<std::string> bufs(n);
                std::atomic<size_t> ready{0};
                std::vector<std::thread> th;
                for (size_t k = 0; k < n; ++k)
                    th.emplace_back(
                        [&, k]()
                        {
                            sink s{-1, &bufs[k]};
                            current_sink = &s;
                            ++ready;
                            while (ready.load() < n)
                                std::this_thread::yield();
                            interp in{s};
                            in.all(cases[ci + k].lines);
                        });
                for (auto & t : th)
                    t.join();
                sink s{log, nullptr};
                for (size_t k = 0; k < n; ++k)
                {
                    s.line("MTCASE " + cases[ci + k].id);
                    write_all(log, bufs[k].data(), bufs[k].size());
                }
                std::exit(0);
            }
            static sink s{log, nullptr};
            current_sink = &s;
            auto * in = new interp{s};
            exiting_interp = in;
            std::atexit(
                []()
                {
                    if (exiting_interp)
                        exiting_interp->values("XV");
                });
            in->all(c.lines);
            exiting_interp = nullptr;
            delete in;
            s.line("D");
            std::cout << std::flush;
            std::exit(77); // distinguishable from an exit of the library
        }
        if (slave >= 0)
            ::close(slave);
        int st = 0;
        std::string tty_out;
        if (master >= 0)
        {
            char buf[4096];
            bool done = false;
            while (!done)
            {
                struct pollfd p{master, POLLIN, 0};
                ::poll(&p, 1, 5);
                done = ::waitpid(pid, &st, WNOHANG) == pid;
                ssize_t k;
                while ((k = ::read(master, buf, sizeof(buf))) > 0)
                    tty_out.append(buf, static_cast<size_t>(k));
            }
            ::close(master);
        }
        else
            ::waitpid(pid, &st, 0);
        if (close_in)
            ::close(in_fd);
        std::string status = WIFEXITED(st)   ? "exit " + std::to_string(WEXITSTATUS(st))
                           : WIFSIGNALED(st) ? "sig " + std::to_string(WTERMSIG(st))
                                             : "other 0";
        std::string all;
        std::string const lg = slurp(log, 1 << 24);
        std::string const o = tty_out + slurp(so, 1 << 22);
        std::string const e = slurp(se, 1 << 16);
        if (mt > 0)
        {
            // one record per thread; the status belongs to all of them
            std::vector<std::pair<std::string, std::string>> parts;
            for (auto const & l : split(lg, '\n'))
            {
                if (l.rfind("MTCASE ", 0) == 0)
                    parts.push_back({l.substr(7), ""});
                else if (!parts.empty() && !l.empty())
                    parts.back().second += l + "\n";
            }
            if (parts.empty())
                parts.push_back({c.id, ""});
            for (auto const & [id, p] : parts)
                emit(all, id, status, p, o, e);
        }
        else
            emit(all, c.id, status, lg, o, e);
        write_all(outfd, all.data(), all.size());
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++hung >= max_hung)
            break;
    }
    return 0;
}
