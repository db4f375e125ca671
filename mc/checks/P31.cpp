// Which definitions are accepted and which are rejected.
#include "help.hpp"
#include "valid.hpp"
using namespace mc;

namespace
{
    // -------------------------------------------------------------- routes
    enum class How { PARSE, PARSE_CONST, ARGV, ITERATE, ITERATE_CONST, HELP, HOWS };
    const char* how_names[] = {"parse", "const parse", "argv parse", "make_iterator", "const make_iterator", "write_help_text"};

    std::string use(const ParserSpec& p, How how)
    {
        try
        {
            auto r = make_parser(p);
            std::ostringstream custom;
            r->stream(&custom);
            Capture cap;
            switch (how)
            {
            case How::PARSE: r->parse(std::vector<std::string_view>{}); break;
            case How::PARSE_CONST: std::as_const(*r).parse(std::vector<std::string_view>{}); break;
            case How::ARGV:
            {
                char prog[] = "prog";
                char* argv[] = {prog, nullptr};
                r->parse(1, argv);
                break;
            }
            case How::ITERATE: r->make_iterator(std::vector<std::string_view>{}); break;
            case How::ITERATE_CONST: std::as_const(*r).make_iterator(std::vector<std::string_view>{}); break;
            default: r->write_help_text(); break;
            }
            return "accepted";
        }
        catch (argos::ArgosException&)
        {
            return "rejected";
        }
        catch (std::exception& e)
        {
            return std::string("other exception: ") + e.what();
        }
    }

    void check_use(Chooser& c, const ParserSpec& p, How how, const std::string& sig)
    {
        c.trace();
        const bool ok = valid_command(p.root, p);
        const auto got = use(p, how);
        c.step();
        c.state(describe(p));
        if (got != (ok ? "accepted" : "rejected"))
            c.fail(sig + ":" + how_names[int(how)], describe(p) + how_names[int(how)] + ": " + got + ", expected " + (ok ? "accepted" : "rejected"));
        c.outcome(std::string(how_names[int(how)]) + " " + got);
        c.sample([&] { return describe(p) + got; });
    }

    // ------------------------------------------------------------ families
    // one option, every combination of settings
    void settings(Chooser& c, const std::vector<How>& hows)
    {
        static const std::vector<Op> ops{Op::NONE, Op::ASSIGN, Op::APPEND, Op::CLEAR};
        static const std::vector<Type> types{Type::NORMAL, Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION};
        static const std::vector<Strs> flags{{"-f"}, {"--flag"}, {"--flag="}, {"-f", "--flag"}, {"-f", "--flag="}, {"--flag", "--flag="}, {"--flag=", "-f", "-g"}};
        OptSpec o;
        const auto style = c.of(styles());
        o.flags = c.of(flags);
        o.op = c.of(ops);
        o.type = c.of(types);
        if (c.flip())
            o.argument = "V";
        if (c.flip())
            o.constant = "con";
        if (c.flip())
            o.alias = "--other";
        if (o.op != Op::NONE && c.flip())
            o.initial = "ini";
        o.optional = !c.flip();
        // Left open: what clearing options do with a value.
        if (o.op == Op::CLEAR && (!o.argument.empty() || !o.constant.empty()))
            return;
        const auto where = c.pick(3);
        ParserSpec p = parser(where == 0 ? root({}, {o}) : where == 1 ? root({}, {}, {cmd("sub", {}, {o})}) : root({}, {}, {cmd("a"), cmd("sub", {}, {}, {cmd("b", {arg("X")}, {opt({"-z"}), o})})}));
        p = styled(p, style);
        p.gen_help = c.flip();
        number(p);
        check_use(c, p, c.of(hows), "settings");
    }

    // every short flag string
    void flag_strings(Chooser& c, size_t most, const std::vector<How>& hows)
    {
        ParserSpec p = parser(root({}));
        p.style = c.of(styles());
        OptSpec o;
        // a good flag before or after does not excuse a bad one
        const auto around = c.pick(3);
        const std::string good = p.style == Style::SLASH ? "/g" : "-g";
        if (around == 1)
            o.flags.push_back(good);
        o.flags.push_back(pick_string(c, "-/=aA \t\n\r\xC3", most));
        if (around == 2)
            o.flags.push_back(good);
        if (o.flags.size() == 2 && o.flags[0] == o.flags[1])
            return;
        if (c.flip())
            o.argument = "V";
        p.root.opts = {o};
        number(p);
        check_use(c, p, c.of(hows), "flag");
    }

    // flags that meet within a command or not
    void conflicts(Chooser& c, size_t flags, const std::vector<How>& hows)
    {
        ParserSpec p;
        const auto style = c.of(styles());
        static const Strs alphabet{"-a", "-A", "-b", "--ab", "--aB", "--ab=", "-[", "-{", "--\xC3\x85", "--\xC3\xA5"};
        // each flag goes to one of three options: two in one command, one in another
        std::vector<OptSpec> os{opt({"-x"}, "V"), opt({"-y"}, "V"), opt({"-z"}, "V")};
        for (size_t i = 0; i < flags; ++i)
        {
            const auto& f = c.of(alphabet);
            os[c.pick(3)].flags.push_back(f);
        }
        p = parser(c.flip() ? root({}, {os[0], os[1]}, {cmd("sub", {}, {os[2]})}) : root({}, {os[2]}, {cmd("sub", {}, {os[0], os[1]})}));
        p = styled(p, style);
        p.ci = c.flip();
        number(p);
        check_use(c, p, c.of(hows), "conflict");
    }

    void requirements(Chooser& c)
    {
        auto require = [&](CmdSpec& x)
        {
            const auto k = c.pick(3);
            if (k)
                x.require = k == 2;
        };
        auto shape = c.pick(5);
        CmdSpec leaf = cmd("leaf"), sub = cmd("sub");
        require(leaf);
        require(sub);
        CmdSpec r = root({});
        require(r);
        if (shape >= 3)
            sub.cmds.push_back(leaf);
        if (shape == 4)
            sub.opts.push_back(opt({"-f"}));
        if (shape >= 1)
            r.cmds.push_back(sub);
        if (shape == 2)
            r.cmds.push_back(leaf);
        auto p = parser(r);
        p.root.multi = c.flip();
        number(p);
        check_use(c, p, How(c.pick(uint32_t(How::HOWS))), "require");
    }

    // the counts of arguments
    void counts(Chooser& c)
    {
        const std::vector<unsigned> n{0, 1, 2, 3, 0x7FFFFFFF, 0x80000000u, MANY - 1, MANY};
        const bool both = c.flip();
        const auto a = c.of(n), b = both ? c.of(n) : a;
        const bool ok = a <= b && b > 0;
        c.trace();
        argos::Argument x("X");
        std::string got = "accepted";
        try
        {
            both ? x.count(a, b) : x.count(a);
        }
        catch (argos::ArgosException&)
        {
            got = "rejected";
        }
        if (got != (ok ? "accepted" : "rejected"))
            c.fail("count", "count(" + std::to_string(a) + (both ? ", " + std::to_string(b) : "") + ") was " + got);
        // a rejected count leaves the counts alone; optional and mandatory adjust the least count only
        unsigned lo = ok ? a : 1, hi = ok ? b : 1;
        const auto k = c.pick(5);
        if (k == 1 || k == 2)
        {
            x.optional(k == 1);
            lo = k == 1 ? 0 : std::max(lo, 1u);
        }
        else if (k > 2)
        {
            x.mandatory(k == 3);
            lo = k == 4 ? 0 : std::max(lo, 1u);
        }
        argos::ArgumentParser p("prog");
        p.auto_exit(false).add(x);
        auto it = p.make_iterator(std::vector<std::string_view>{});
        auto r = it.parsed_arguments();
        const auto v = r.all_arguments().at(0)->count();
        if (v != std::pair<unsigned, unsigned>(lo, hi))
            c.fail("count:kept", "count(" + std::to_string(a) + (both ? ", " + std::to_string(b) : "") + ") gave " + std::to_string(v.first) + ".." + std::to_string(v.second));
        c.outcome(got);
        c.state(std::to_string(lo) + " " + std::to_string(hi));
    }

    // Histories of definitions; what is rejected leaves no trace.
    enum class Do { ARG, ARG_UNNAMED, ARG_USED, CMD, CMD_UNNAMED, CMD_USED, OPT, OPT_FLAGLESS, OPT_USED, COPY_ARG, COPY_CMD, COPY_OPT, COPY_EMPTY, REQUIRE, DONT_REQUIRE, STYLE, SAME_STYLE, DOS };
    const char* do_names[] = {"add argument", "add unnamed argument", "add a used argument", "add command", "add unnamed command", "add a used command", "add option", "add option without flags", "add a used option",
                              "copy_from command with argument", "copy_from command with sub-command", "copy_from command with option", "copy_from empty command", "require_subcommand(true)", "require_subcommand(false)", "option_style(DASH)", "option_style(same)"};

    template <class T>
    void play(Chooser& c, T& t, bool parser, ParserSpec& p, CmdSpec& x, const std::vector<Do>& history)
    {
        int n = 0;
        for (auto d : history)
        {
            ++n;
            const auto suffix = std::to_string(n);
            bool ok = true;
            auto def_arg = arg("A" + suffix, 0, 1);
            def_arg.id = 100 + n;
            auto def_opt = opt({p.style == Style::SLASH ? "/a" + suffix : p.style == Style::DASH ? "-a" + suffix : "--a" + suffix});
            def_opt.id = 200 + n;
            auto def_cmd = cmd("c" + suffix);
            def_cmd.id = 300 + n;
            std::function<void()> f;
            switch (d)
            {
            case Do::ARG:
                ok = x.cmds.empty();
                if (ok)
                    x.args.push_back(def_arg);
                f = [&] { t.add(make_argument(def_arg)); };
                break;
            case Do::ARG_UNNAMED:
                ok = false;
                def_arg.name = "";
                f = [&] { t.add(make_argument(def_arg)); };
                break;
            case Do::ARG_USED:
                ok = false;
                f = [&]
                {
                    auto a = make_argument(def_arg);
                    argos::Command("elsewhere").add(a);
                    t.add(a);
                };
                break;
            case Do::CMD:
                ok = x.args.empty();
                if (ok)
                    x.cmds.push_back(def_cmd);
                f = [&] { t.add(make_command(def_cmd)); };
                break;
            case Do::CMD_UNNAMED:
                ok = false;
                def_cmd.name = "";
                f = [&] { t.add(make_command(def_cmd)); };
                break;
            case Do::CMD_USED:
                ok = false;
                f = [&]
                {
                    auto a = make_command(def_cmd);
                    argos::Command("elsewhere").add(a);
                    t.add(a);
                };
                break;
            case Do::OPT:
                x.opts.push_back(def_opt);
                f = [&] { t.add(make_option(def_opt)); };
                break;
            case Do::OPT_FLAGLESS:
                ok = false;
                def_opt.flags.clear();
                f = [&] { t.add(make_option(def_opt)); };
                break;
            case Do::OPT_USED:
                ok = false;
                f = [&]
                {
                    auto a = make_option(def_opt);
                    argos::Command("elsewhere").add(a);
                    t.add(a);
                };
                break;
            case Do::COPY_ARG:
                ok = x.cmds.empty();
                if (ok)
                    x.args.push_back(def_arg);
                f = [&]
                {
                    argos::Command y("y");
                    y.add(make_argument(def_arg));
                    t.copy_from(y);
                };
                break;
            case Do::COPY_CMD:
                ok = x.args.empty();
                if (ok)
                    x.cmds.push_back(def_cmd);
                f = [&]
                {
                    argos::Command y("y");
                    y.add(make_command(def_cmd));
                    t.copy_from(y);
                };
                break;
            case Do::COPY_OPT:
                x.opts.push_back(def_opt);
                f = [&]
                {
                    argos::Command y("y");
                    y.add(make_option(def_opt));
                    t.copy_from(y);
                };
                break;
            case Do::COPY_EMPTY:
                f = [&]
                {
                    argos::Command y("y");
                    t.copy_from(y);
                };
                break;
            case Do::REQUIRE:
                x.require = true;
                f = [&] { t.require_subcommand(true); };
                break;
            case Do::DONT_REQUIRE:
                x.require = false;
                f = [&] { t.require_subcommand(false); };
                break;
            case Do::STYLE:
                if constexpr (std::is_same_v<T, argos::ArgumentParser>)
                {
                    // only while there are no options
                    ok = x.opts.empty() || p.style == Style::DASH;
                    if (ok)
                        p.style = Style::DASH;
                    f = [&] { t.option_style(Style::DASH); };
                }
                break;
            case Do::SAME_STYLE:
                if constexpr (std::is_same_v<T, argos::ArgumentParser>)
                    f = [&] { t.option_style(p.style); };
                break;
            default: break;
            }
            std::string got = "accepted";
            try
            {
                f();
            }
            catch (argos::ArgosException&)
            {
                got = "rejected";
            }
            c.step();
            if (got != (ok ? "accepted" : "rejected"))
            {
                std::string h;
                for (auto e : history)
                    h += std::string(do_names[int(e)]) + "; ";
                c.fail("history", h + "\nstep " + std::to_string(n) + " was " + got + (parser ? " by the parser" : " by the command"));
            }
        }
    }

    void histories(Chooser& c, size_t most, bool in_parser)
    {
        std::vector<Do> history;
        const auto n = 1 + c.pick(uint32_t(most));
        for (size_t i = 0; i < n; ++i)
            history.push_back(Do(c.pick(in_parser ? uint32_t(Do::DOS) : uint32_t(Do::STYLE))));
        ParserSpec p;
        argos::ArgumentParser real("prog");
        real.auto_exit(false).generate_help_option(false).line_width(1000);
        std::ostringstream custom;
        real.stream(&custom);
        c.trace();
        CmdSpec target = in_parser ? cmd("prog") : cmd("sub");
        if (in_parser)
            play(c, real, true, p, target, history);
        else
        {
            argos::Command sub("sub");
            sub.id(7);
            target.id = 7;
            play(c, sub, false, p, target, history);
            real.add(sub);
        }
        if (in_parser)
            p.root = target;
        else
        {
            p.root = cmd("prog");
            p.root.cmds = {target};
        }
        // nothing is left of what was rejected
        Strs line;
        if (!in_parser)
            line.push_back("sub");
        for (auto& o : target.opts)
            line.push_back(o.flags[0]);
        for (auto& a : target.args)
            line.push_back(a.name);
        if (!target.cmds.empty())
            line.push_back(target.cmds.back().name);
        const bool ok = valid_command(p.root, p);
        try
        {
            auto r = real_run_on(real, p, line, c.flip() ? Route::PARSE : Route::PARSE_CONST);
            r.custom = custom.str();
            if (!ok)
            {
                if (r.end != Outcome::THREW)
                    c.fail("history:accepted", describe(p) + "was accepted");
                c.outcome("rejected when parsing");
                return;
            }
            auto m = model_run(p, line);
            // the callbacks made by make_option and make_argument do not list values
            CompareOpts o;
            o.events = false;
            o.what = "history";
            compare_with(c, p, line, m, r, o);
        }
        catch (argos::ArgosException& e)
        {
            c.fail("history:exception", describe(p) + e.what());
        }
        c.outcome("accepted");
        c.state(describe(p));
    }

    // Automatic options take the flags that are free.
    void automatic(Chooser& c)
    {
        static const std::vector<Strs> sets{
            {"-h", "-H", "--help", "--HELP", "--help=", "--helper", "--version", "--Version", "--version="},
            {"/?", "/h", "/help", "/version", "/VERSION", "/v", "/Version="},
            {"-h", "-H", "-help", "-Help", "-help=", "-version", "-VERSION", "-v"}};
        const auto s = c.pick(3);
        ParserSpec p = parser(root({}));
        p.style = styles()[s];
        p.ci = c.flip();
        p.gen_help = c.flip();
        if (c.flip())
            p.version = "7.8";
        CmdSpec own = cmd("");
        int n = 0;
        for (auto& f : sets[s])
        {
            if (!c.flip())
                continue;
            auto o = opt({f}, f.back() == '=' || n == 1 ? "V" : "");
            o.help = "Own " + std::to_string(++n);
            own.opts.push_back(o);
        }
        const auto shape = c.pick(4);
        if (shape == 1)
        {
            // an own help option
            own.opts.push_back(typed({s == 1 ? "/q" : "-q"}, Type::HELP));
        }
        const bool sub = shape == 2;
        const bool joined_flags = shape == 3;
        if (joined_flags && own.opts.size() > 1)
        {
            // all flags belong to one option
            OptSpec o = own.opts[0];
            o.argument = "V";
            for (size_t i = 1; i < own.opts.size(); ++i)
                o.flags.push_back(own.opts[i].flags[0]);
            own.opts = {o};
        }
        else if (joined_flags)
            return;
        if (sub)
        {
            own.name = "sub";
            p.root.cmds = {own};
        }
        else
        {
            own.name = "prog";
            p.root = own;
        }
        number(p);
        c.state(describe(p));
        if (!valid_command(p.root, p))
        {
            check_use(c, p, How::PARSE, "automatic");
            return;
        }
        Strs tokens = sets[s];
        for (auto x : {"-h=1", "--help=1", "--version=1", "/help=1", "/version=1", "-help=1", "-version=1", "/V", "-Version", "/VERSION", "-hh", "-?", "--h", "--v"})
            tokens.push_back(x);
        const auto k = c.pick(uint32_t(tokens.size() + 1));
        if (k == tokens.size())
        {
            check_help(c, p, sub && c.flip() ? std::vector<size_t>{0} : std::vector<size_t>{}, HelpRoute::FUNCTION, "", "automatic:help");
            return;
        }
        Strs line{tokens[k]};
        if (sub && c.flip())
            line.insert(line.begin(), "sub");
        CompareOpts o;
        o.what = "automatic";
        auto m = compare(c, p, line, o);
    }
}

Check mc::make_check(Tier tier)
{
    const bool q = quick(tier);
    Check k;
    k.id = "P31";
    std::vector<How> all;
    for (int i = 0; i < int(How::HOWS); ++i)
        all.push_back(How(i));
    const std::vector<How> few = q ? std::vector<How>{How::PARSE, How::HELP} : all;
    k.families.push_back({"settings", "3 styles x 7 sets of flags x 4 operations x 6 types x argument x constant x alias x initial value x mandatory x 3 places x automatic help x " + std::to_string(all.size()) + " uses",
                          [all](Chooser& c) { settings(c, all); }});
    const size_t n = q ? 4 : 5;
    k.families.push_back({"flags", "every string of up to " + std::to_string(n) + " of 10 characters as a flag, alone or with a good one, 3 styles, with and without argument, " + std::to_string(few.size()) + " uses",
                          [n, few](Chooser& c) { flag_strings(c, n, few); }});
    const size_t m = q ? 2 : 3;
    k.families.push_back({"conflicts", std::to_string(m) + " flags of 10 in any of three options of two commands, 3 styles, both cases of case_insensitive, " + std::to_string(few.size()) + " uses",
                          [m, few](Chooser& c) { conflicts(c, m, few); }});
    k.families.push_back({"require", "5 trees x require_subcommand unset, false, true in each command x all uses", requirements});
    k.families.push_back({"counts", "every pair of 8 counts and each single one x optional/mandatory afterwards", counts});
    const size_t h = q ? 4 : 5;
    k.families.push_back({"parser-histories", "every history of up to " + std::to_string(h - 1) + " of 17 definition steps on the parser", [h](Chooser& c) { histories(c, h - 1, true); }});
    k.families.push_back({"command-histories", "every history of up to " + std::to_string(h) + " of 15 definition steps on a command", [h](Chooser& c) { histories(c, h, false); }});
    k.families.push_back({"automatic", "every subset of 7 to 9 flags resembling the automatic ones x 3 styles x case_insensitive x help x version x 4 shapes, one-token lines and help text", automatic});
    k.assumptions = {"clearing options with an argument or constant are left open"};
    return k;
}
