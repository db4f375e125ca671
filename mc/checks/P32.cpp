// No crash, no undefined behaviour, no leak, no hang, whatever the bytes.
// Runs on the library built with AddressSanitizer and UBSan; the harness adds
// leak counting and an exception filter, the engine a time limit.
#include "copies.hpp"
#include <cmath>
#include <limits>
using namespace mc;

namespace
{
    volatile size_t g_sink; // everything read ends up here

    void eat(std::string_view s)
    {
        size_t n = 0;
        for (char c : s)
            n = n * 31 + (unsigned char)c;
        g_sink = g_sink + n;
    }

    template <typename F>
    void attempt(F f)
    {
        try
        {
            f();
        }
        catch (argos::ArgosException& e)
        {
            eat(e.what());
        }
        catch (ExitCalled&)
        {
        }
    }

    void read_view(const argos::IArgumentView& v)
    {
        eat(v.help());
        eat(v.section());
        eat(v.alias());
        g_sink = g_sink + size_t(v.visibility()) + size_t(v.id()) + size_t(v.value_id()) + size_t(v.argument_id());
        if (auto a = dynamic_cast<const argos::ArgumentView*>(&v))
        {
            eat(a->name());
            g_sink = g_sink + a->optional() + a->count().first;
        }
        else if (auto o = dynamic_cast<const argos::OptionView*>(&v))
        {
            for (auto& f : o->flags())
                eat(f);
            eat(o->argument());
            eat(o->constant());
            eat(o->initial_value());
            g_sink = g_sink + size_t(o->operation()) + size_t(o->type()) + o->optional();
        }
        else if (auto k = dynamic_cast<const argos::CommandView*>(&v))
        {
            eat(k->name());
            for (auto& x : k->arguments())
                read_view(x);
            for (auto& x : k->options())
                read_view(x);
            for (auto& x : k->subcommands())
                read_view(x);
        }
    }

    void read_value(const argos::ArgumentValue& v)
    {
        if (auto a = v.argument())
            read_view(*a);
        if (v.value())
            eat(*v.value());
        eat(v.as_string());
        attempt([&] { g_sink = g_sink + v.as_bool(); });
        for (int base : {0, 2, 10, 16, 36})
        {
            attempt([&] { g_sink = g_sink + size_t(v.as_int(0, base)); });
            attempt([&] { g_sink = g_sink + v.as_uint(0, base); });
            attempt([&] { g_sink = g_sink + size_t(v.as_long(0, base)); });
            attempt([&] { g_sink = g_sink + size_t(v.as_llong(0, base)); });
            attempt([&] { g_sink = g_sink + v.as_ulong(0, base); });
            attempt([&] { g_sink = g_sink + v.as_ullong(0, base); });
        }
        attempt([&] { g_sink = g_sink + std::isnan(v.as_float()); });
        attempt([&] { g_sink = g_sink + std::isnan(v.as_double()); });
    }

    void read_values(const argos::ArgumentValues& vs)
    {
        for (auto v : vs)
            eat(v.as_string());
        for (auto x : vs.raw_values())
            eat(x);
        for (auto& a : vs.arguments())
            if (a)
                read_view(*a);
        for (size_t i = 0; i <= vs.size(); ++i)
        {
            attempt([&] { eat(vs.value(i).as_string()); });
            if (i < vs.size())
                attempt([&] { eat(vs[i].as_string()); });
        }
        attempt([&] { g_sink = g_sink + vs.as_ints().size(); });
        attempt([&] { g_sink = g_sink + vs.as_ullongs({}, 16).size(); });
        attempt([&] { g_sink = g_sink + vs.as_doubles().size(); });
        attempt([&] { g_sink = g_sink + vs.as_strings().size(); });
    }

    void read_result(const argos::ParsedArguments& r)
    {
        eat(r.name());
        read_view(r.command());
        g_sink = g_sink + size_t(r.result_code());
        attempt([&] { read_view(r.stop_option()); });
        for (auto& u : r.unprocessed_arguments())
            eat(u);
        auto one = [&](const argos::IArgumentView& v, const std::string& name)
        {
            g_sink = g_sink + r.has(v);
            attempt([&] { read_value(r.value(v)); });
            read_values(r.values(v));
            attempt([&] { read_values(r.values(name)); });
        };
        for (auto& a : r.all_arguments())
        {
            read_view(*a);
            one(*a, a->name());
        }
        for (auto& o : r.all_options())
        {
            read_view(*o);
            one(*o, o->flags()[0]);
        }
        for (auto& k : r.all_subcommands())
            read_view(*k);
        attempt([&] { g_sink = g_sink + r.has("no such name"); });
        for (auto& s : r.subcommands())
            read_result(s);
    }

    enum class Use { PARSE, ITERATE, HELP, ARGV, USES };

    // Uses everything there is on one command line.
    void exercise(const ParserSpec& p, const Strs& line, Use use)
    {
        std::unique_ptr<argos::ArgumentParser> parser;
        attempt([&] { parser = make_parser(p); });
        if (!parser)
            return;
        std::ostringstream custom, printed;
        if (p.custom_stream)
            parser->stream(&custom);
        auto tokens = std::make_unique<Strs>(line);
        std::vector<std::string_view> sv(tokens->begin(), tokens->end());
        Capture cap;
        attempt([&]
        {
            switch (use)
            {
            case Use::PARSE:
            {
                auto r = std::as_const(*parser).parse(std::move(sv));
                tokens.reset();
                parser.reset();
                read_result(r);
                print(r, printed);
                attempt([&] { r.error("failed"); });
                break;
            }
            case Use::ITERATE:
            {
                auto it = parser->make_iterator(std::move(sv));
                parser.reset();
                tokens.reset();
                auto r = it.parsed_arguments();
                std::unique_ptr<argos::IArgumentView> v;
                std::string_view x;
                attempt([&]
                {
                    while (it.next(v, x))
                    {
                        if (v)
                            read_view(*v);
                        eat(x);
                        for (auto& u : r.unprocessed_arguments())
                            eat(u);
                    }
                });
                read_result(r);
                print(r, printed);
                break;
            }
            case Use::HELP:
                parser->write_help_text();
                attempt([&] { parser->write_subcommand_help_text(line); });
                break;
            case Use::ARGV:
            {
                std::string prog = "dir/prog";
                std::vector<char*> argv{prog.data()};
                for (auto& t : *tokens)
                    argv.push_back(t.data());
                argv.push_back(nullptr);
                int argc = int(argv.size()) - 1;
                char** av = argv.data();
                auto r = parser->parse(argc, av);
                r.filter_parsed_arguments(argc, av);
                for (int i = 0; i < argc; ++i)
                    eat(av[i]);
                break;
            }
            default: break;
            }
        });
    }

    // Runs it and counts what is not given back.
    void checked(Chooser& c, const std::string& sig, const std::string& what, const std::function<void()>& f)
    {
        c.trace();
        c.step();
        for (int i = 0;; ++i)
        {
            const auto before = live_allocations();
            try
            {
                f();
            }
            catch (std::exception& e)
            {
                c.fail(sig + ":exception", what + "\nexception: " + e.what());
            }
            const auto after = live_allocations();
            if (after == before)
                break;
            if (i == 2) // no cache warms up twice
                c.fail(sig + ":leak", what + "\n" + std::to_string(after - before) + " allocations are not released");
        }
        c.sample([&] { return what; });
    }

    const char* uses[] = {"parse", "iterate", "help", "argv"};

    void checked_line(Chooser& c, const std::string& sig, const ParserSpec& p, const Strs& line, Use use)
    {
        c.state(hash64(show(line), hash64(describe(p))) + uint64_t(use));
        checked(c, sig, describe(p) + show(line) + " " + uses[int(use)], [&] { exercise(p, line, use); });
        c.outcome(uses[int(use)]);
    }

    // ----------------------------------------------------------- definitions
    ParserSpec definition(int i, Style s)
    {
        auto b = append({"-b", "--bb"});
        b.initial = "ini";
        auto k = opt({"-k", "--kk"});
        k.constant = "con";
        k.alias = "-b";
        const std::string hi = "-\xC3", utf = "--\xC3\xA5", bare = s == Style::STANDARD ? "--" : s == Style::SLASH ? "//" : "--";
        ParserSpec p;
        switch (i)
        {
        case 0:
            p = parser(root({arg("A", 0, MANY)}, {opt({"-f"}), b, k, op({"-c"}, Op::CLEAR), op({"-n"}, Op::NONE), typed({"-s"}, Type::STOP)}));
            p.root.opts[3].alias = "-b";
            break;
        case 1:
            p = parser(root({arg("A", 1, 2), arg("A\n\tB", 0, 1)}, {opt({hi, utf}), append({"--aa="}), append({"-="}), typed({bare}, Type::LAST_OPTION)}));
            if (s != Style::STANDARD)
                p.root.opts[3].flags = {s == Style::SLASH ? "//" : "--"};
            break;
        case 2:
            p = parser(root({}, {append({"-b"}), typed({"-e"}, Type::LAST_ARGUMENT)}, {cmd("a", {arg("X", 0, 2)}, {b}), cmd("-", {}, {}, {cmd("a"), cmd("\xC3\xA5")})}));
            p.root.multi = true;
            p.root.require = false;
            break;
        default:
            p = parser(root({arg("A", 0, 1)}, {typed({"-a", "--ab"}, Type::EXIT), typed({"--ba"}, Type::HELP, "V"), opt({"--b\x01"}, "V")}));
            p.version = "1";
            break;
        }
        p.gen_help = true;
        p = styled(p, s);
        p.line_width = 20;
        number(p);
        return p;
    }

    void setting(ParserSpec& p, uint32_t n)
    {
        p.abbrev = n & 1;
        p.ci = n & 2;
        p.ign_opt = n & 4;
        p.ign_arg = n & 4;
        p.auto_exit = n & 8;
    }

    Strs byte_line(Chooser& c, const std::string& bytes, size_t tokens, size_t most)
    {
        Strs r;
        const auto n = 1 + c.pick(uint32_t(tokens));
        for (size_t i = 0; i < n; ++i)
            r.push_back(pick_string(c, bytes, most));
        return r;
    }

    // every byte there is, in the places that matter
    void all_bytes(Chooser& c, bool quick)
    {
        const auto s = c.of(styles());
        auto p = definition(int(c.pick(4)), s);
        setting(p, quick ? c.pick(2) * 15 : c.pick(4) * 5);
        const std::string x(1, char(c.pick(256)));
        static const Strs before{"", "-", "--", "--aa=", "-b", "-f", "/", "a"}, after{"", "a", "="};
        const auto b = before[c.pick(quick ? 5 : 8)];
        Strs line{b + x + after[c.pick(quick ? 2 : 3)]};
        if (!quick && c.flip())
            line.push_back(x);
        // argv cannot hold a zero byte, but such a token is still a token
        checked_line(c, "bytes", p, line, c.flip() ? Use::PARSE : Use::ITERATE);
    }

    void lines(Chooser& c, size_t tokens, size_t most, const std::string& bytes, int settings)
    {
        const auto s = c.of(styles());
        auto p = definition(int(c.pick(4)), s);
        const bool fewer = settings == 3;
        setting(p, settings == 16 ? c.pick(16) : c.pick(uint32_t(settings)) * 5);
        auto line = byte_line(c, bytes, tokens, most);
        checked_line(c, "line", p, line, fewer ? Use(2 * c.pick(2) + (c.pos & 1)) : Use(c.pick(4)));
    }

    // flags, names and texts of any bytes
    void strange_definitions(Chooser& c, size_t most, bool quick)
    {
        ParserSpec p = parser(root({}));
        p.style = c.of(styles());
        const std::string x = pick_string(c, std::string("-/=a \n\t\xC3\xA5\0", 10), most);
        CmdSpec& k = p.root;
        switch (c.pick(8))
        {
        case 0: k.opts = {opt({x, p.style == Style::SLASH ? "/q" : "-q"}, "V")}; break;
        case 1: k.opts = {opt({x})}; break;
        case 2: k.args = {arg(x, 0, 2)}; break;
        case 3: k.cmds = {cmd(x)}; break;
        case 4: k.opts = {opt({p.style == Style::SLASH ? "/q" : "-q"}, x)}; break;
        case 5: k.name = x; break;
        case 6:
            k.args = {arg("A", 0, 1)};
            k.args[0].alias = x;
            k.args[0].section = x;
            break;
        case 7:
            k.opts = {opt({p.style == Style::SLASH ? "/q" : "-q"})};
            k.opts[0].constant = x;
            k.opts[0].initial = x;
            k.opts[0].section = x;
            break;
        }
        p.gen_help = true;
        p.version = x;
        setting(p, c.pick(2) * 7);
        p.line_width = quick || c.flip() ? 12 : 80;
        number(p);
        const auto l = c.pick(5);
        const Strs line = l == 0 ? Strs{} : l == 1 ? Strs{x} : l == 2 ? Strs{x + "=v", x} : l == 3 ? Strs{p.style == Style::SLASH ? "/q" : "-q", x} : Strs{"--help"};
        checked_line(c, "definition", p, line, l == 4 ? Use::HELP : c.flip() ? Use::PARSE : Use::ITERATE);
    }

    // texts of any bytes at every small width
    void texts(Chooser& c, size_t most)
    {
        ParserSpec p = parser(root({arg("A", 0, 1)}, {opt({"-f", "--flag"}, "V")}));
        const auto width = 3 + c.pick(8);
        p.line_width = width == 10 ? 40 : unsigned(width);
        const auto x = pick_string(c, std::string("a \n\t-\xC3\xA5\r\0", 9), most);
        switch (c.pick(3))
        {
        case 0: p.root.texts[TextId::ABOUT] = x; break;
        case 1: p.root.opts[0].help = x; break;
        default: p.root.texts[TextId::USAGE] = x; break;
        }
        number(p);
        c.state(hash64(describe(p)) + width);
        checked(c, "text", describe(p) + "width " + std::to_string(p.line_width), [&] { exercise(p, {}, Use::HELP); });
        c.outcome("help");
    }

    // rules and words of any bytes
    void rules(Chooser& c, size_t most)
    {
        const auto rule = pick_string(c, "a- \xC3\xA5.", most), word = pick_string(c, "a-\xC3\xA5.", most);
        const auto width = 3 + c.pick(4);
        c.state(rule + '\0' + word + std::to_string(width));
        checked(c, "rule", show(rule) + " for " + show(word) + " at " + std::to_string(width), [&]
        {
            attempt([&]
            {
                argos::ArgumentParser p("p");
                std::ostringstream o;
                p.line_width(width).stream(&o).about("a" + word + " " + word + "aaa").add_word_splitting_rule(rule).add_word_splitting_rule(rule + " x-y");
                p.write_help_text();
            });
        });
        c.outcome("help");
    }

    // values of any bytes
    void values(Chooser& c, size_t most)
    {
        auto p = parser(root({arg("A", 0, MANY)}, {append({"-b"})}));
        number(p);
        Strs line;
        const auto n = 1 + c.pick(2);
        for (size_t i = 0; i < n; ++i)
            line.push_back(pick_string(c, std::string("0-x.,e\xFF\0", 8), n == 1 ? most : 2));
        const char sep = ",\0-"[c.pick(3)];
        const auto lo = c.pick(3), hi = c.pick(4);
        c.state(show(line) + sep + std::to_string(lo * 5 + hi));
        checked(c, "value", show(line), [&]
        {
            std::vector<std::string_view> sv(line.begin(), line.end());
            std::optional<argos::ArgumentValues> vs, parts;
            std::optional<argos::ArgumentValue> v;
            std::ostringstream o;
            attempt([&]
            {
                auto parser = make_parser(p);
                parser->stream(&o);
                auto r = parser->parse(sv);
                parser.reset();
                sv.clear();
                vs = r.values("A");
                if (vs->size())
                    v = vs->value(0);
            });
            // only the values are left
            if (vs)
            {
                attempt([&] { read_values(*vs); });
                attempt([&] { parts = vs->split(sep, lo, hi); });
                if (parts)
                    attempt([&] { read_values(*parts); });
                vs.reset();
                parts.reset();
            }
            if (v)
            {
                attempt([&] { read_value(*v); });
                attempt([&] { parts = v->split(sep, lo, hi); });
                attempt([&] { parts = v->split_n(sep, hi); });
                attempt([&] { v->error(); });
                v.reset();
                if (parts)
                    read_values(*parts);
            }
        });
        c.outcome(std::to_string(n) + " values");
    }

    // sizes far from small
    void sizes(Chooser& c, unsigned most)
    {
        const auto e = c.pick(most + 1);
        const size_t n = (size_t(1) << e) + c.pick(3) - 1;
        const auto kind = c.pick(12);
        ParserSpec p = parser(root({arg("A", 0, MANY)}, {append({"-b", "--bb"}), opt({"-f"}), op({"-c"}, Op::CLEAR)}));
        p.ign_opt = c.flip();
        p.line_width = 79;
        Strs line;
        Use use = c.flip() ? Use::PARSE : Use::ITERATE;
        switch (kind)
        {
        case 0: line = {std::string(n, 'v')}; break;
        case 1: line = {"--bb=" + std::string(n, 'v')}; break;
        case 2: line = {"-" + std::string(n, 'f')}; break;
        case 3: line = {std::string(n, '-')}; break;
        case 4: line = Strs(std::min<size_t>(n, 4096), "v"); break;
        case 5: line = Strs(std::min<size_t>(n, 4096), "-bv"); break;
        case 6: // many definitions
            for (size_t i = 0; i < std::min<size_t>(n, 1024); ++i)
                p.root.opts.push_back(opt({"--o" + std::to_string(i)}));
            line = {"--o0"};
            use = Use::HELP;
            break;
        case 7: // deep nesting
        {
            CmdSpec k = cmd("k", {arg("X", 0, 1)});
            for (size_t i = 0; i < std::min<size_t>(n, 256); ++i)
                k = cmd("k", {}, {opt({"-f"})}, {k});
            p.root = root({}, {}, {k});
            line = Strs(std::min<size_t>(n, 256), "k");
            break;
        }
        case 8: // long texts
            p.root.texts[TextId::ABOUT] = std::string(n, 'w');
            use = Use::HELP;
            break;
        case 9:
        {
            std::string t;
            while (t.size() < n)
                t += "word\t- item\n  ";
            p.root.texts[TextId::ABOUT] = t;
            use = Use::HELP;
            break;
        }
        case 10: // long names
            p.root.opts[0].flags[1] = "--" + std::string(n, 'b');
            p.root.args[0].name = std::string(n, 'A');
            line = {"--" + std::string(n, 'b') + "=v"};
            break;
        case 11: // many linked names
            for (size_t i = 0; i < std::min<size_t>(n, 512); ++i)
            {
                p.root.opts.push_back(append({"--o" + std::to_string(i)}));
                p.root.opts.back().alias = "--o" + std::to_string(i * 7 % (i + 1));
            }
            line = {"--o0=1", "--o1=2"};
            break;
        }
        number(p);
        c.state(std::to_string(kind) + " " + std::to_string(n));
        checked(c, "size", "kind " + std::to_string(kind) + " size " + std::to_string(n), [&] { exercise(p, line, use); });
        c.outcome("kind " + std::to_string(kind));
    }

    // the arguments of main, and names of programs
    void mains(Chooser& c)
    {
        const auto argc = int(c.pick(5)) - 1;
        static const Strs names{"", "/", "\\", "a", "a/", "a/b", "a\\b", ".exe", "UNINITIALIZED"};
        const auto name = c.of(names);
        const auto own = c.of(names);
        const bool iterate = c.flip(), constant = c.flip(), named = c.flip(), extract = c.flip(), defaulted = c.flip();
        checked(c, "main", "argc " + std::to_string(argc) + " name " + show(name), [&]
        {
            std::string prog = name, x = "x", y = "-y";
            char* argv[] = {prog.data(), x.data(), y.data(), nullptr};
            std::unique_ptr<argos::ArgumentParser> p;
            p = named ? std::make_unique<argos::ArgumentParser>(own, extract) : std::make_unique<argos::ArgumentParser>();
            std::ostringstream o;
            p->stream(&o).auto_exit(defaulted);
            p->add(argos::Argument("A").optional(true));
            attempt([&]
            {
                if (iterate)
                {
                    auto it = constant ? std::as_const(*p).make_iterator(argc, argv) : p->make_iterator(argc, argv);
                    std::unique_ptr<argos::IArgumentView> v;
                    std::string_view s;
                    while (it.next(v, s))
                        eat(s);
                }
                else
                {
                    auto r = constant ? std::as_const(*p).parse(argc, argv) : p->parse(argc, argv);
                    read_result(r);
                    int n = argc;
                    char** av = argv;
                    r.filter_parsed_arguments(n, av);
                }
            });
        });
        c.outcome("argc " + std::to_string(argc));
        c.state(std::to_string(argc) + name + "\0" + own);
    }
}

Check mc::make_check(Tier tier)
{
    const bool q = quick(tier);
    Check k;
    k.id = "P32";
    k.families.push_back({"every-byte", "each of the 256 byte values behind " + std::to_string(q ? 5 : 8) + " prefixes and before " + std::to_string(q ? 2 : 3) + " suffixes x 4 definitions x 3 styles x " + std::to_string(q ? 2 : 4) + " settings x parse and iterate", [=](Chooser& c) { all_bytes(c, q); }});
    const std::string bytes("-=/abB\xC3\xA5\0", 9);
    const size_t n1 = q ? 3 : 4, n2 = q ? 2 : 3;
    k.families.push_back({"one-token", "every token of up to " + std::to_string(n1) + " of 9 bytes x 4 definitions x 3 styles x " + std::to_string(q ? 4 : 16) + " settings x 4 uses",
                          [=](Chooser& c) { lines(c, 1, n1, bytes, q ? 4 : 16); }});
    const std::string fewer("-=/ab\xC3", 6);
    k.families.push_back({"two-tokens", "every line of up to two tokens of up to " + std::to_string(n2) + " of 6 bytes x 4 definitions x 3 styles x 3 settings x 2 uses",
                          [=](Chooser& c) { lines(c, 2, n2, fewer, 3); }});
    const size_t d = q ? 3 : 4;
    k.families.push_back({"definitions", "every string of up to " + std::to_string(d) + " of 10 bytes as flag, name, alias, section, constant, version or program name x 3 styles x 2 settings x " + std::to_string(q ? 1 : 2) + " widths x 5 lines",
                          [=](Chooser& c) { strange_definitions(c, d, q); }});
    const size_t t = q ? 4 : 5;
    k.families.push_back({"texts", "every text of up to " + std::to_string(t) + " of 9 bytes as three kinds of text x 8 widths", [=](Chooser& c) { texts(c, t); }});
    const size_t w = q ? 3 : 4;
    k.families.push_back({"rules", "every splitting rule of up to " + std::to_string(w) + " of 6 bytes x every word of up to " + std::to_string(w) + " of 5 bytes x 4 widths", [=](Chooser& c) { rules(c, w); }});
    const size_t v = q ? 3 : 4;
    k.families.push_back({"values", "one value of up to " + std::to_string(v) + " bytes of 8, or two shorter ones, x every accessor, base and split", [=](Chooser& c) { values(c, v); }});
    const unsigned s = q ? 12 : 15;
    k.families.push_back({"sizes", "12 kinds of length, count, depth and width at 2^n-1, 2^n, 2^n+1 for n up to " + std::to_string(s), [=](Chooser& c) { sizes(c, s); }});
    k.families.push_back({"copies", "every history of up to 2 operations on two commands and a parser (see P36)", [](Chooser& c) { copies::history(c, 2); }});
    k.families.push_back({"main", "argc -1 to 3 x 9 values of argv[0] x 9 program names x entry points", mains});
    k.assumptions = {"undefined behaviour is what AddressSanitizer and UndefinedBehaviorSanitizer report; termination is within 40 s per case"};
    return k;
}
