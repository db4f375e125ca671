// Settings: what getters report, independence of order and entry point, names.
#include "common.hpp"
using namespace mc;

namespace
{
    // ------------------------------------------------------------- getters
    struct Settings
    {
        bool abbrev = false, auto_exit = true, ci = false, help = true, ign_arg = false, ign_opt = false, multi = false;
        std::optional<bool> require;
        int style = 0;
        bool arg_cb = false, opt_cb = false;
        const void* stream = nullptr;
        std::string name = "prog", section;
        // not reported, but decisive for what may be set
        bool has_options = false, has_arguments = false, has_commands = false;
        int n = 0;
    };

    std::string show(const Settings& s)
    {
        return std::string("abbreviated=") + char('0' + s.abbrev) + " auto_exit=" + char('0' + s.auto_exit) + " case_insensitive=" + char('0' + s.ci) + " help=" + char('0' + s.help)
               + " ignore_arguments=" + char('0' + s.ign_arg) + " ignore_options=" + char('0' + s.ign_opt) + " multiple=" + char('0' + s.multi)
               + " require=" + (s.require ? *s.require ? "1" : "0" : "-") + " style=" + char('0' + s.style) + " argument_callback=" + char('0' + s.arg_cb)
               + " option_callback=" + char('0' + s.opt_cb) + " stream=" + (s.stream ? "set" : "none") + std::to_string(reinterpret_cast<uintptr_t>(s.stream) % 7)
               + " name=" + mc::show(s.name) + " section=" + mc::show(s.section);
    }

    std::string reported(const argos::ArgumentParser& p)
    {
        Settings s;
        s.abbrev = p.allow_abbreviated_options();
        s.auto_exit = p.auto_exit();
        s.ci = p.case_insensitive();
        s.help = p.generate_help_option();
        s.ign_arg = p.ignore_undefined_arguments();
        s.ign_opt = p.ignore_undefined_options();
        s.multi = p.allow_multiple_subcommands();
        s.require = p.require_subcommand();
        s.style = int(p.option_style());
        s.arg_cb = bool(p.argument_callback());
        s.opt_cb = bool(p.option_callback());
        s.stream = p.stream();
        s.name = p.program_name();
        s.section = p.current_section();
        return show(s);
    }

    std::ostream g_nowhere(nullptr), g_elsewhere(nullptr);

    struct Op_
    {
        std::string name;
        // false: must be rejected
        std::function<bool(Settings&)> model;
        std::function<void(argos::ArgumentParser&)> real;
    };

    const std::vector<Op_>& operations()
    {
        using P = argos::ArgumentParser;
        using namespace argos;
        static std::vector<Op_> v;
        if (!v.empty())
            return v;
        auto flag = [&](const char* name, bool Settings::*m, P& (P::*f)(bool))
        {
            for (bool b : {false, true})
                v.push_back({std::string(name) + (b ? "(true)" : "(false)"), [=](Settings& s) { return s.*m = b, true; }, [=](P& p) { (p.*f)(b); }});
        };
        flag("allow_abbreviated_options", &Settings::abbrev, &P::allow_abbreviated_options);
        flag("auto_exit", &Settings::auto_exit, &P::auto_exit);
        flag("case_insensitive", &Settings::ci, &P::case_insensitive);
        flag("generate_help_option", &Settings::help, &P::generate_help_option);
        flag("ignore_undefined_arguments", &Settings::ign_arg, &P::ignore_undefined_arguments);
        flag("ignore_undefined_options", &Settings::ign_opt, &P::ignore_undefined_options);
        flag("allow_multiple_subcommands", &Settings::multi, &P::allow_multiple_subcommands);
        for (bool b : {false, true})
            v.push_back({std::string("require_subcommand") + (b ? "(true)" : "(false)"), [=](Settings& s) { return s.require = b, true; }, [=](P& p) { p.require_subcommand(b); }});
        for (auto st : styles())
            v.push_back({"option_style " + std::to_string(int(st)),
                         [=](Settings& s)
                         {
                             if (s.has_options && s.style != int(st))
                                 return false;
                             s.style = int(st);
                             return true;
                         },
                         [=](P& p) { p.option_style(st); }});
        v.push_back({"argument_callback(f)", [](Settings& s) { return s.arg_cb = true; }, [](P& p) { p.argument_callback([](auto&) {}); }});
        v.push_back({"argument_callback({})", [](Settings& s) { return s.arg_cb = false, true; }, [](P& p) { p.argument_callback({}); }});
        v.push_back({"option_callback(f)", [](Settings& s) { return s.opt_cb = true; }, [](P& p) { p.option_callback([](auto&) {}); }});
        v.push_back({"option_callback({})", [](Settings& s) { return s.opt_cb = false, true; }, [](P& p) { p.option_callback({}); }});
        v.push_back({"stream(a)", [](Settings& s) { return s.stream = &g_nowhere, true; }, [](P& p) { p.stream(&g_nowhere); }});
        v.push_back({"stream(b)", [](Settings& s) { return s.stream = &g_elsewhere, true; }, [](P& p) { p.stream(&g_elsewhere); }});
        v.push_back({"stream(nullptr)", [](Settings& s) { return s.stream = nullptr, true; }, [](P& p) { p.stream(nullptr); }});
        for (auto n : {"other", "", "a/b", "a longer name than before it"})
        {
            v.push_back({std::string("program_name(") + n + ")", [=](Settings& s) { return s.name = n, true; }, [=](P& p) { p.program_name(n); }});
            v.push_back({std::string("current_section(") + n + ")", [=](Settings& s) { return s.section = n, true; }, [=](P& p) { p.current_section(n); }});
        }
        auto same = [](Settings&) { return true; };
        v.push_back({"version", same, [](P& p) { p.version("1.2"); }});
        v.push_back({"about", same, [](P& p) { p.about("About."); }});
        v.push_back({"text", same, [](P& p) { p.text(TextId::USAGE, "Usage."); }});
        v.push_back({"line_width", same, [](P& p) { p.line_width(77); }});
        v.push_back({"set_exit_codes", same, [](P& p) { p.set_exit_codes(3, 4); }});
        v.push_back({"add_word_splitting_rule", same, [](P& p) { p.add_word_splitting_rule("wo-rd"); }});
        v.push_back({"add(Option)",
                     [](Settings& s)
                     {
                         return s.has_options = true;
                     },
                     [](P& p)
                     {
                         static int n = 0;
                         p.add(Option(std::string(p.option_style() == OptionStyle::SLASH ? "/" : "-") + char('a' + n++ % 26)));
                     }});
        v.push_back({"add(Argument)",
                     [](Settings& s)
                     {
                         if (s.has_commands)
                             return false;
                         return s.has_arguments = true;
                     },
                     [](P& p) { p.add(Argument("A")); }});
        v.push_back({"add(Command)",
                     [](Settings& s)
                     {
                         if (s.has_arguments)
                             return false;
                         return s.has_commands = true;
                     },
                     [](P& p)
                     {
                         static int n = 0;
                         p.add(Command("c" + std::to_string(n++)));
                     }});
        v.push_back({"copy_from",
                     same,
                     [](P& p)
                     {
                         Command c("c");
                         c.allow_multiple_subcommands(p.allow_multiple_subcommands()).current_section("of the copied command");
                         p.copy_from(c);
                     }});
        v.push_back({"moves",
                     same,
                     [](P& p)
                     {
                         P q(std::move(p));
                         P r;
                         r.program_name("r").auto_exit(false);
                         r = q.move();
                         p = std::move(r);
                     }});
        v.push_back({"a help text",
                     same,
                     [](P& p)
                     {
                         Capture cap;
                         try
                         {
                             std::as_const(p).write_help_text();
                         }
                         catch (argos::ArgosException&)
                         {
                         }
                     }});
        v.push_back({"a repeatable parse",
                     same,
                     [](P& p)
                     {
                         Capture cap;
                         try
                         {
                             (void)std::as_const(p).parse({"x"});
                         }
                         catch (argos::ArgosException&)
                         {
                         }
                         catch (ExitCalled&)
                         {
                         }
                     }});
        return v;
    }

    void getters(Chooser& c, size_t most)
    {
        const auto& ops = operations();
        argos::ArgumentParser p("prog");
        Settings s;
        std::string history;
        auto verify = [&]
        {
            const auto e = show(s), r = reported(p);
            if (e != r)
                c.fail("getters", "after" + history + "\nexpected: " + e + "\nobserved: " + r);
        };
        verify();
        const auto n = 1 + c.pick(uint32_t(most));
        for (size_t i = 0; i < n; ++i)
        {
            const auto& o = ops[c.pick(uint32_t(ops.size()))];
            history += " " + o.name;
            const auto fine = o.model(s);
            bool done = true;
            try
            {
                o.real(p);
            }
            catch (argos::ArgosException&)
            {
                done = false;
            }
            if (done != fine)
                c.fail("getters:rejected", "after" + history + (fine ? ": the last one is rejected" : ": the last one is not rejected"));
            verify();
            c.step();
        }
        c.trace();
        c.state(show(s));
        c.sample([&] { return history + " -> " + show(s); });
    }

    // --------------------------------------------------------------- order
    // The settings that may be given before or after the definitions.
    struct Setter
    {
        const char* name;
        std::function<void(argos::ArgumentParser&, const ParserSpec&)> set, other;
    };

    RunLog* log_of_order = nullptr;

    const std::vector<Setter>& setters()
    {
        using P = argos::ArgumentParser;
        static const std::vector<Setter> v{
            {"allow_abbreviated_options", [](P& x, const ParserSpec& p) { x.allow_abbreviated_options(p.abbrev); }, [](P& x, const ParserSpec& p) { x.allow_abbreviated_options(!p.abbrev); }},
            {"case_insensitive", [](P& x, const ParserSpec& p) { x.case_insensitive(p.ci); }, [](P& x, const ParserSpec& p) { x.case_insensitive(!p.ci); }},
            {"ignore_undefined_options", [](P& x, const ParserSpec& p) { x.ignore_undefined_options(p.ign_opt); }, [](P& x, const ParserSpec& p) { x.ignore_undefined_options(!p.ign_opt); }},
            {"ignore_undefined_arguments", [](P& x, const ParserSpec& p) { x.ignore_undefined_arguments(p.ign_arg); }, [](P& x, const ParserSpec& p) { x.ignore_undefined_arguments(!p.ign_arg); }},
            {"generate_help_option", [](P& x, const ParserSpec& p) { x.generate_help_option(p.gen_help); }, [](P& x, const ParserSpec& p) { x.generate_help_option(!p.gen_help); }},
            {"auto_exit", [](P& x, const ParserSpec& p) { x.auto_exit(p.auto_exit); }, [](P& x, const ParserSpec& p) { x.auto_exit(!p.auto_exit); }},
            {"set_exit_codes", [](P& x, const ParserSpec& p) { x.set_exit_codes(p.error_code, p.normal_code); }, [](P& x, const ParserSpec&) { x.set_exit_codes(99, 98); }},
            {"version", [](P& x, const ParserSpec& p) { x.version(p.version); }, [](P& x, const ParserSpec&) { x.version("of another program"); }},
            {"line_width", [](P& x, const ParserSpec& p) { x.line_width(p.line_width); }, [](P& x, const ParserSpec&) { x.line_width(33); }},
            {"program_name", [](P& x, const ParserSpec& p) { x.program_name(p.root.name); }, [](P& x, const ParserSpec&) { x.program_name("another"); }},
            {"multiple", [](P& x, const ParserSpec& p) { x.allow_multiple_subcommands(p.root.multi); }, [](P& x, const ParserSpec& p) { x.allow_multiple_subcommands(!p.root.multi); }},
            {"require_subcommand", [](P& x, const ParserSpec& p) { x.require_subcommand(*p.root.require); }, [](P& x, const ParserSpec& p) { x.require_subcommand(!*p.root.require); }},
            {"texts",
             [](P& x, const ParserSpec&)
             {
                 x.about("About it.");
                 x.text(TextId::FINAL_TEXT, [] { return std::string("The end."); });
             },
             [](P& x, const ParserSpec&)
             {
                 x.about("About something else.");
                 x.text(TextId::FINAL_TEXT, "Another end.");
             }},
            {"callbacks",
             [](P& x, const ParserSpec&)
             {
                 x.argument_callback([](auto& a) { log_of_order->events.push_back({'A', a.view.id(), std::string(a.value), ""}); });
                 x.option_callback([](auto& a) { log_of_order->events.push_back({'O', a.view.id(), std::string(a.value), ""}); });
             },
             [](P& x, const ParserSpec&)
             {
                 x.argument_callback([](auto& a) { log_of_order->events.push_back({'?', a.view.id(), std::string(a.value), ""}); });
                 x.option_callback([](auto& a) { log_of_order->events.push_back({'?', a.view.id(), std::string(a.value), ""}); });
             }},
        };
        return v;
    }

    // Whether settings overwrite other ones, and whether the repeatable
    // operations are used in between.
    enum class How { ONCE, OVERWRITE, USED };

    // The parser of a specification, its settings given in some order.
    std::string transcript(const ParserSpec& p, const Strs& line, uint32_t after, bool backwards, How how, Route route, std::string& order)
    {
        const bool twice = how != How::ONCE;
        const auto& v = setters();
        RunLog log;
        log_of_order = &log;
        argos::ArgumentParser x("initially");
        std::ostringstream s, wrong;
        auto set = [&](bool late)
        {
            for (size_t k = 0; k < v.size(); ++k)
            {
                const auto i = backwards ? v.size() - 1 - k : k;
                if (bool(after >> i & 1) == late)
                {
                    if (twice)
                        v[i].other(x, p);
                    v[i].set(x, p);
                    order += std::string(" ") + v[i].name;
                }
            }
            if (bool(after & 1) == late)
            {
                if (twice)
                    x.stream(&wrong);
                x.stream(&s);
            }
        };
        auto use = [&]
        {
            if (how != How::USED)
                return;
            order += " USED";
            auto attempt = [&](auto f)
            {
                Capture cap;
                try
                {
                    f();
                }
                catch (argos::ArgosException&)
                {
                }
                catch (ExitCalled&)
                {
                }
            };
            std::vector<std::string_view> sv(line.begin(), line.end());
            attempt([&] { (void)std::as_const(x).parse(sv); });
            attempt([&]
            {
                auto it = std::as_const(x).make_iterator(sv);
                std::unique_ptr<argos::IArgumentView> view;
                std::string_view value;
                while (it.next(view, value))
                {
                }
            });
            attempt([&] { std::as_const(x).write_help_text(); });
            log.events.clear();
            s.str("");
            wrong.str("");
        };
        x.option_style(p.style);
        set(false);
        use();
        order += " DEFINITIONS";
        for (auto& a : p.root.args)
            x.add(make_argument(a));
        if (!p.root.args.empty())
            use();
        for (auto& o : p.root.opts)
            x.add(make_option(o));
        use();
        for (auto& k : p.root.cmds)
            x.add(make_command(k));
        if (how == How::USED)
        {
            for (size_t i = 0; i < v.size(); ++i)
                if (after >> i & 1)
                    v[i].other(x, p);
            if (after & 1)
                x.stream(&wrong);
            use();
        }
        set(true);
        auto o = real_run_on(x, p, line, route);
        auto r = ending(o) + "\nlog:\n" + text(log.events) + "stream:\n" + s.str() + "another stream:\n" + wrong.str();
        if (route == Route::PARSE_CONST || route == Route::ITERATE_CONST)
        {
            s.str("");
            Capture cap;
            std::as_const(x).write_help_text();
            r += "help:\n" + s.str() + cap.out() + cap.err();
        }
        return r;
    }

    // --------------------------------------------------------------- names
    struct Naming
    {
        enum How { NONE, GIVEN, WHOLE, SET, GIVEN_AND_SET, HOWS } how;
        std::string name;
    };

    std::string base_name(const std::string& s)
    {
        const auto n = s.find_last_of("/\\");
        return n == std::string::npos ? s : s.substr(n + 1);
    }

    std::vector<std::string> all_names()
    {
        std::vector<std::string> r;
        const std::string alphabet = "a/\\.";
        std::vector<std::string> level{""};
        for (int n = 0; n < 4; ++n)
        {
            std::vector<std::string> next;
            for (auto& x : level)
                for (char ch : alphabet)
                    next.push_back(x + ch);
            for (auto& x : next)
                if (!base_name(x).empty()) // what a name with nothing after its last separator means is left open
                    r.push_back(x);
            level = next;
        }
        for (auto x : {"prog", "/usr/bin/prog", "C:\\Program Files\\prog.exe", "pro g", "./prog", "\xC3\xA5/\xC3\xA6", "-prog", "a=b"})
            r.push_back(x);
        return r;
    }

    struct Entry
    {
        const char* name;
        bool argv, constant, iterate;
    };
    const std::vector<Entry> entries{{"parse(list)", false, false, false}, {"const parse(list)", false, true, false}, {"make_iterator(list)", false, false, true}, {"const make_iterator(list)", false, true, true},
                                     {"parse(argv)", true, false, false}, {"const parse(argv)", true, true, false}, {"make_iterator(argv)", true, false, true}, {"const make_iterator(argv)", true, true, true}};

    struct Told
    {
        std::string result, view, callback, stream;
        argos::ParserResultCode code;
    };

    Told tell(argos::ArgumentParser& x, const Entry& e, const std::string& argv0, const Strs& line)
    {
        std::ostringstream s;
        Told t;
        x.stream(&s);
        x.option_callback([&](argos::OptionCallbackArguments& a) { t.callback = a.builder.program_name(); });
        std::vector<std::string> copy(line);
        std::string name = argv0;
        std::vector<char*> argv{name.data()};
        for (auto& l : copy)
            argv.push_back(l.data());
        argv.push_back(nullptr);
        const int argc = int(argv.size()) - 1;
        std::vector<std::string_view> sv(copy.begin(), copy.end());
        const auto& cx = x;
        auto finish = [&](const argos::ParsedArguments& r)
        {
            t.result = std::string(r.name());
            t.view = r.command().name();
            t.code = r.result_code();
        };
        if (!e.iterate)
            finish(e.argv ? e.constant ? cx.parse(argc, argv.data()) : x.parse(argc, argv.data()) : e.constant ? cx.parse(sv) : x.parse(sv));
        else
        {
            auto it = e.argv ? e.constant ? cx.make_iterator(argc, argv.data()) : x.make_iterator(argc, argv.data()) : e.constant ? cx.make_iterator(sv) : x.make_iterator(sv);
            std::unique_ptr<argos::IArgumentView> v;
            std::string_view w;
            while (it.next(v, w))
            {
            }
            finish(it.parsed_arguments());
        }
        t.stream = s.str();
        return t;
    }

    void names(Chooser& c, const std::vector<std::string>& all)
    {
        const auto how = Naming::How(c.pick(Naming::HOWS));
        const auto& e = c.of(entries);
        // what the parser is named, and what argv[0] is
        std::string name, argv0;
        if (how == Naming::NONE)
        {
            if (!e.argv)
                return;
            argv0 = c.of(all);
        }
        else
        {
            name = c.of(all);
            static const std::vector<std::string> others{"", "x", "y/z"};
            argv0 = c.of(others);
        }
        auto make = [&]
        {
            std::unique_ptr<argos::ArgumentParser> x;
            switch (how)
            {
            case Naming::NONE: x = std::make_unique<argos::ArgumentParser>(); break;
            case Naming::GIVEN: x = std::make_unique<argos::ArgumentParser>(name); break;
            case Naming::WHOLE: x = std::make_unique<argos::ArgumentParser>(name, false); break;
            case Naming::SET:
                x = std::make_unique<argos::ArgumentParser>();
                x->program_name(name);
                break;
            default:
                x = std::make_unique<argos::ArgumentParser>("before/it");
                x->program_name(name);
                break;
            }
            x->auto_exit(false).version("1.2").line_width(1000).add(argos::Option("-f"));
            argos::Command k("sub");
            k.add(argos::Option("-g"));
            x->add(std::move(k)).require_subcommand(false);
            return x;
        };
        const auto expected = how == Naming::NONE ? base_name(argv0) : how == Naming::GIVEN ? base_name(name) : name;
        const auto context = std::string(e.name) + " of a parser " + (how == Naming::NONE ? "without a name" : how == Naming::GIVEN ? "named " : how == Naming::WHOLE ? "named without extraction " : "renamed ") + mc::show(name)
                             + " with argv[0] " + mc::show(argv0) + "\n";
        auto is = [&](const std::string& what, const std::string& observed)
        {
            if (observed != expected)
                c.fail("names:" + what, context + what + "\nexpected: " + mc::show(expected) + "\nobserved: " + mc::show(observed));
        };
        auto begins = [&](const std::string& what, const std::string& observed, const std::string& rest)
        {
            if (observed.rfind(expected + rest, 0) != 0)
                c.fail("names:" + what, context + what + "\nexpected: " + mc::show(expected + rest) + "...\nobserved: " + mc::show(observed));
        };
        if (how != Naming::NONE)
            is("program_name()", make()->program_name());
        auto t = tell(*make(), e, argv0, {"-f"});
        is("name of the result", t.result);
        is("name of its command", t.view);
        is("program_name() in a callback", t.callback);
        t = tell(*make(), e, argv0, {"--version"});
        is("version", t.stream.substr(0, t.stream.find(" 1.2\n")));
        t = tell(*make(), e, argv0, {"-x"});
        begins("error", t.stream, ": ");
        if (t.stream.find("\n  " + expected + " ") == std::string::npos)
            c.fail("names:usage", context + "usage after an error\nobserved: " + t.stream);
        t = tell(*make(), e, argv0, {"sub", "-x"});
        begins("error of a sub-command", t.stream, " sub: ");
        t = tell(*make(), e, argv0, {"sub", "-g"});
        is("program_name() in a callback of a sub-command", t.callback);
        t = tell(*make(), e, argv0, {"--help"});
        if (t.stream.find("  " + expected + " ") == std::string::npos)
            c.fail("names:help", context + "usage in the help text\nobserved: " + t.stream);
        // A repeatable operation leaves the parser without a name.
        if (e.constant && how == Naming::NONE)
        {
            auto x = make();
            tell(*x, e, "first/one", {"-f"});
            is("name of the second result", tell(*x, e, argv0, {"-f"}).result);
        }
        c.trace();
        c.state(context);
        c.outcome(expected);
        c.step(6);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P39";
    const bool q = quick(tier);
    k.families.push_back({"getters", "every sequence of up to " + std::string(q ? "3" : "4") + " of " + std::to_string(operations().size()) + " setters and other operations, all getters after each of them",
                          [=](Chooser& c) { getters(c, q ? 3 : 4); }});
    // order
    std::vector<ParserSpec> specs;
    for (int i = 0; i < 4; ++i)
    {
        auto p = i & 1 ? zoo_tree().specs[size_t(2 + i)] : zoo_flat(i ? Style::SLASH : Style::STANDARD).specs[size_t(i)];
        p.root.require = i == 3;
        p.abbrev = i & 1;
        p.ci = i & 2;
        p.ign_opt = i == 1;
        p.ign_arg = i == 2;
        p.gen_help = i != 2;
        p.auto_exit = i & 1;
        p.version = i == 3 ? "" : "1.2";
        p.error_code = 3 + i;
        p.normal_code = 11 + i;
        p.line_width = unsigned(50 + 7 * i);
        p.custom_stream = false;
        number(p);
        specs.push_back(p);
    }
    const auto count = uint32_t(setters().size());
    k.families.push_back({"order", std::to_string(specs.size()) + " definitions x " + std::to_string(count) + " settings each given before or after the definitions, " + (q ? "those after being any set of up to 3 or all but up to 1" : "in every combination") + ", in ascending or descending order, at once, overwriting other values, or overwriting them after the repeatable operations have been used with them and with a part of the definitions x 5 command lines x 2 entry points: the same outcome and help text",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(specs);
                              const auto after = c.pick(1u << count);
                              const auto bits = __builtin_popcount(after);
                              if (q && bits > 2 && bits < int(count) - 1)
                                  return;
                              static const std::vector<Strs> standard{{"-f", "--fl", "-zz", "v"}, {"--help"}, {"--VERSION"}, {"sub", "v", "-b", "x", "other"}, {"-F", "-b"}},
                                  slash{{"/f", "/fl", "/zz", "v"}, {"/?"}, {"/version"}, {"/s", "a"}, {"/F", "/b"}};
                              const auto& line = c.of(p.style == Style::SLASH ? slash : standard);
                              const auto route = c.flip() ? Route::PARSE_CONST : Route::ITERATE;
                              const bool backwards = c.flip();
                              const auto how = How(c.pick(3));
                              std::string first, order;
                              const auto e = transcript(p, line, 0, false, How::ONCE, route, first);
                              const auto r = transcript(p, line, after, backwards, how, route, order);
                              expect_same(c, "order", "the order of settings matters", e, r, "command line " + mc::show(line) + "\n" + describe(p) + "order:" + order + (how != How::ONCE ? " (each set to something else first)" : "") + "\n");
                              c.trace();
                              c.step();
                              c.state(hash64(order) + after);
                          }});
    // entry points
    {
        auto flat = zoo_flat();
        auto tree = zoo_tree();
        auto family = [&](std::string name, std::vector<ParserSpec> v, Strs alphabet, size_t most)
        {
            for (auto& p : v)
                number(p);
            k.families.push_back({name, std::to_string(v.size()) + " definitions x auto-exit on or off x every line of up to " + std::to_string(most) + " tokens of " + mc::show(alphabet) + ": the same outcome from every entry point",
                                  [=](Chooser& c)
                                  {
                                      auto p = c.of(v);
                                      p.auto_exit = c.flip();
                                      const auto line = pick_line(c, alphabet, most);
                                      const auto e = ending(real_run(p, line, Route::PARSE));
                                      for (auto r : {Route::PARSE_CONST, Route::ARGV, Route::ARGV_CONST, Route::ITERATE, Route::ITERATE_CONST})
                                          expect_same(c, "entry", "entry point " + std::to_string(int(r)) + " differs", e, ending(real_run(p, line, r)), "command line " + mc::show(line) + "\n" + describe(p));
                                      c.trace();
                                      c.step(6);
                                      c.state(hash64(mc::show(line), hash64(describe(p))));
                                  }});
        };
        family("entry-points", flat.specs, flat.alphabet, q ? 2 : 3);
        family("entry-points-tree", {tree.specs[2], tree.specs[8], tree.specs[13]}, tree.alphabet, q ? 2 : 3);
    }
    const auto all = all_names();
    k.families.push_back({"names", std::to_string(all.size()) + " names and paths x 5 ways of naming the program (argv[0] among them) x 8 entry points: in the result, callbacks, version, errors, usage and help of the program and a sub-command",
                          [=](Chooser& c) { names(c, all); }});
    k.assumptions.push_back("the name is UNINITIALIZED only if none was given; what a path that ends in a separator names is left open");
    return k;
}
