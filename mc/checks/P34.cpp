// What the views of definitions say, however they are reached.
#include "views.hpp"
using namespace mc;

namespace
{
    // the groups of names that are linked
    std::vector<int> groups(const CmdSpec& c)
    {
        std::vector<Strs> names;
        for (auto& a : c.args)
            names.push_back(a.alias.empty() ? Strs{a.name} : Strs{a.name, a.alias});
        for (auto& o : c.opts)
        {
            names.push_back(o.op == Op::NONE ? Strs{} : o.flags);
            if (!o.alias.empty())
                names.back().push_back(o.alias);
        }
        std::vector<int> g(names.size());
        for (size_t i = 0; i < g.size(); ++i)
            g[i] = int(i);
        for (bool changed = true; changed;)
        {
            changed = false;
            for (size_t i = 0; i < g.size(); ++i)
                for (size_t j = 0; j < i; ++j)
                    if (g[i] != g[j])
                        for (auto& x : names[i])
                            if (std::find(names[j].begin(), names[j].end(), x) != names[j].end() && g[i] != g[j])
                            {
                                const auto lo = std::min(g[i], g[j]), hi = std::max(g[i], g[j]);
                                for (auto& y : g)
                                    if (y == hi)
                                        y = lo;
                                changed = true;
                            }
        }
        for (size_t i = 0; i < g.size(); ++i)
            if (names[i].empty())
                g[i] = -1;
        return g;
    }

    // --------------------------------------------------------- all routes
    struct Seen
    {
        Chooser& c;
        const ParserSpec& p;
        std::map<int, std::string> expected;
        std::string context;

        void check(const std::string& route, int id, const std::string& got)
        {
            auto it = expected.find(id);
            if (it == expected.end())
                c.fail("view:" + route, context + "a view of nothing that was defined: " + got);
            if (it->second != got)
                c.fail("view:" + route, context + route + "\nexpected: " + it->second + "\nobserved: " + got);
            c.step();
        }

        void check(const std::string& route, const argos::IArgumentView& v)
        {
            if (auto o = dynamic_cast<const argos::OptionView*>(&v))
                if (automatic(*o))
                    return;
            check(route, v.id(), words(&v));
        }

        void result(const argos::ParsedArguments& r, const CmdSpec& k, bool program)
        {
            const auto whole = words(p, k, program);
            if (r.name() != k.name)
                c.fail("view:name", context + "name: " + std::string(r.name()) + ", expected " + k.name);
            check("command", k.id, words(r.command()));
            std::string parts;
            std::set<int> ids;
            const auto linked = groups(k);
            std::map<int, int> value_of; // group -> value id
            size_t n = 0;
            auto distinct = [&](const argos::IArgumentView& v, bool own)
            {
                if (int(v.argument_id()) == 0 || !ids.insert(int(v.argument_id())).second)
                    c.fail("view:argument-id", context + "internal id " + std::to_string(int(v.argument_id())) + " is used twice or unset");
                if (!own)
                    return;
                const int g = linked[n++];
                if (g < 0)
                {
                    if (int(v.value_id()) != 0)
                        c.fail("view:value-id", context + "an option without value has value id " + std::to_string(int(v.value_id())));
                    return;
                }
                if (int(v.value_id()) <= 0)
                    c.fail("view:value-id", context + "value id " + std::to_string(int(v.value_id())));
                for (auto& [h, id] : value_of)
                    if ((g == h) != (id == int(v.value_id())))
                        c.fail("view:value-id", context + "value ids do not say what is linked");
                value_of[g] = int(v.value_id());
            };
            for (auto& a : r.all_arguments())
            {
                parts += words(*a) + "; ";
                distinct(*a, true);
            }
            for (auto& o : r.all_options())
            {
                parts += words(*o) + "; ";
                distinct(*o, n < linked.size());
            }
            for (auto& s : r.all_subcommands())
                parts += words(*s) + "; ";
            if (whole.substr(whole.find('{')) != "{" + parts + "}")
                c.fail("view:all", context + "expected: " + whole + "\nobserved: " + parts);
            // values
            auto source = [&](const argos::ArgumentValues& vs)
            {
                const auto as = vs.arguments();
                for (auto& v : vs.values())
                    if (auto a = v.argument())
                        check("value", *a);
                for (auto v : vs)
                    if (auto a = v.argument())
                        check("iterated value", *a);
                std::set<int> some;
                for (auto& a : as)
                {
                    if (a)
                        check("values", *a);
                    if (a)
                        some.insert(a->id());
                }
            };
            for (auto& a : r.all_arguments())
            {
                source(r.values(a->name()));
                source(r.values(*a));
                source(r.values(*a).split(','));
            }
            for (auto& o : r.all_options())
                if (o->operation() != Op::NONE)
                {
                    source(r.values(o->flags()[0]));
                    source(r.values(*o));
                }
            if (r.result_code() == Code::STOP)
                check("stop option", r.stop_option());
            for (auto& s : r.subcommands())
                for (auto& x : k.cmds)
                    if (x.id == s.command().id())
                        result(s, x, false);
        }
    };

    // The specification says where the sections come from; `current` is the
    // section in force (the same everywhere) when the definitions are added.
    void check_views(Chooser& c, ParserSpec p, const Strs& line, bool whole_only = false)
    {
        c.trace();
        c.state(hash64(show(line), hash64(describe(p))));
        Seen s{c, p, {}, describe(p) + show(line) + "\n"};
        collect(p, p.root, true, s.expected);
        // callbacks report to this
        std::string told;
        auto parser = make_parser(p);
        std::ostringstream custom;
        parser->stream(&custom);
        parser->option_callback([&](argos::OptionCallbackArguments& a) { s.check("option callback", a.view); });
        parser->argument_callback([&](argos::ArgumentCallbackArguments& a) { s.check("argument callback", a.view); });
        std::vector<std::string_view> sv(line.begin(), line.end());
        Capture cap;
        try
        {
            auto r = std::as_const(*parser).parse(sv);
            s.result(r, p.root, true);
            c.outcome(name(r.result_code()));
            if (!whole_only)
            {
                // step by step, from the parser itself
                auto it = parser->make_iterator(sv);
                parser.reset();
                s.result(it.parsed_arguments(), p.root, true);
                std::unique_ptr<argos::IArgumentView> v;
                std::string_view x;
                while (it.next(v, x))
                    if (v)
                        s.check("step", *v);
                s.result(it.parsed_arguments(), p.root, true);
            }
        }
        catch (argos::ArgosException& e)
        {
            c.fail("view:exception", s.context + e.what());
        }
        c.sample([&] { return s.context; });
    }

    // ------------------------------------------------------------ families
    void options(Chooser& c)
    {
        static const std::vector<Op> ops{Op::NONE, Op::ASSIGN, Op::APPEND, Op::CLEAR};
        static const std::vector<Type> types{Type::NORMAL, Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION};
        static const std::vector<Vis> vis{Vis::HIDDEN, Vis::USAGE, Vis::TEXT, Vis::NORMAL};
        OptSpec o;
        o.flags = c.flip() ? Strs{"-f"} : Strs{"--flag", "-f", "-g"};
        o.op = c.of(ops);
        o.type = c.of(types);
        if (c.flip())
            o.argument = "VALUE";
        if (c.flip())
            o.constant = "con";
        if (c.flip())
            o.alias = "--other";
        if (o.op != Op::NONE && c.flip())
            o.initial = "ini";
        o.optional = !c.flip();
        o.visibility = c.of(vis);
        const auto h = c.pick(3);
        if (h)
            o.help = "The help.";
        o.text_function = h == 2;
        if (c.flip())
            o.section = "SECTION";
        if (!valid_option(o, Style::STANDARD) || (o.op == Op::CLEAR && (!o.argument.empty() || !o.constant.empty())) || (o.op == Op::NONE && !o.optional))
            return;
        const bool sub = c.flip();
        auto p = parser(sub ? root({}, {}, {cmd("sub", {}, {opt({"-z"}), o})}) : root({arg("A", 0, MANY)}, {o, opt({"-z"})}));
        number(p);
        Strs line = sub ? Strs{"sub"} : Strs{};
        line.push_back(o.type == Type::HELP || o.type == Type::EXIT ? "-z" : "-f");
        if (line.back() == "-f" && !o.argument.empty())
            line.push_back("v");
        check_views(c, p, line);
    }

    void arguments(Chooser& c)
    {
        static const std::vector<Vis> vis{Vis::HIDDEN, Vis::USAGE, Vis::TEXT, Vis::NORMAL};
        static const std::vector<std::pair<unsigned, unsigned>> counts{{1, 1}, {0, 1}, {0, MANY}, {2, 2}, {1, 3}, {3, MANY}, {MANY, MANY}};
        auto make = [&](std::string n)
        {
            ArgSpec a = arg(n);
            std::tie(a.min, a.max) = c.of(counts);
            if (c.flip())
                a.alias = "other";
            a.visibility = c.of(vis);
            const auto h = c.pick(3);
            if (h)
                a.help = "The help.";
            a.text_function = h == 2;
            if (c.flip())
                a.section = "SECTION";
            return a;
        };
        auto a = make("A\tname");
        // the second argument's settings must not be taken for the first's
        auto b = arg("B", 0, 2);
        b.help = "Help of B";
        b.visibility = Vis::TEXT;
        std::vector<ArgSpec> as = c.flip() ? std::vector<ArgSpec>{a, b} : std::vector<ArgSpec>{b, a};
        const auto place = c.pick(3);
        auto p = parser(place == 0 ? root(as) : place == 1 ? root({}, {}, {cmd("sub", as)}) : root({}, {}, {cmd("sub", {}, {opt({"-f"})}, {cmd("x"), cmd("leaf", as)})}));
        number(p);
        if (a.min == MANY)
        {
            // cannot be satisfied: the views of the iterator only
            auto parser = make_parser(p);
            auto it = parser->make_iterator(std::vector<std::string_view>{});
            Seen s{c, p, {}, describe(p)};
            collect(p, p.root, true, s.expected);
            s.check("command", 0, words(it.parsed_arguments().command()));
            c.trace();
            return;
        }
        Strs line = place == 0 ? Strs{} : place == 1 ? Strs{"sub"} : Strs{"sub", "leaf"};
        for (unsigned i = 0; i < a.min + 1 && i < a.max + 2; ++i)
            line.push_back("v");
        check_views(c, p, line);
    }

    void commands(Chooser& c)
    {
        static const std::vector<Vis> vis{Vis::HIDDEN, Vis::USAGE, Vis::TEXT, Vis::NORMAL};
        auto x = cmd("sub", {}, {append({"-f"})});
        const auto children = c.pick(3);
        for (uint32_t i = 0; i < children; ++i)
            x.cmds.push_back(cmd("leaf" + std::to_string(i), {arg("L", 0, 2)}, {opt({"-g"})}));
        if (c.flip())
            x.texts[TextId::HELP] = "Help.";
        if (c.flip())
            x.texts[TextId::ABOUT] = "About.";
        if (c.flip())
            x.text_functions = {TextId::HELP, TextId::ABOUT};
        for (auto& t : x.text_functions)
            if (!x.texts.count(t))
            {
                x.text_functions.clear();
                break;
            }
        if (c.flip())
            x.section = "SECTION";
        x.visibility = c.of(vis);
        const auto r = c.pick(children ? 3 : 2);
        if (r)
            x.require = r == 2;
        x.multi = c.flip();
        x.way = CmdSpec::Way(c.pick(uint32_t(CmdSpec::WAYS)));
        auto other = cmd("other");
        other.texts[TextId::HELP] = "Help of other.";
        const bool deep = c.flip();
        auto p = parser(deep ? root({}, {}, {other, cmd("mid", {}, {}, {x, other})}) : root({}, {opt({"-r"})}, {x, other}));
        const auto rr = c.pick(3);
        if (rr)
            p.root.require = rr == 2;
        p.gen_help = c.flip();
        if (c.flip())
            p.version = "1.0";
        number(p);
        Strs line = deep ? Strs{"mid", "sub"} : Strs{"sub"};
        if (c.flip())
            line.push_back("-f1");
        if (children)
            line.push_back("leaf" + std::to_string(children - 1));
        check_views(c, p, line);
    }

    // Everything is listed once and in order.
    void listings(Chooser& c)
    {
        auto make = [&](std::string n, uint32_t args, uint32_t opts)
        {
            auto k = cmd(n);
            for (uint32_t i = 0; i < args; ++i)
                k.args.push_back(arg(n + std::string(1, char('A' + (i * 2) % 3)), 0, 1));
            for (uint32_t i = 0; i < opts; ++i)
                k.opts.push_back(opt({"-" + std::string(1, "bacd"[i])}));
            return k;
        };
        auto p = parser(root({}));
        p.style = c.of(styles());
        const auto kind = c.pick(2);
        p.root = make("prog", kind ? 0 : c.pick(4), c.pick(4));
        if (kind)
        {
            const auto n = c.pick(4);
            for (uint32_t i = 0; i < n; ++i)
            {
                p.root.cmds.push_back(make(std::string(1, "zay"[i]), i == 2 ? c.pick(3) : 1, c.pick(3)));
                if (i == 1)
                {
                    p.root.cmds[1].args.clear();
                    p.root.cmds[1].cmds = {make("n", 1, 1), make("m", 2, 0)};
                }
            }
        }
        p.gen_help = c.flip();
        if (c.flip())
            p.version = "1";
        p.root.require = kind && !p.root.cmds.empty() && c.flip();
        p.root.way = c.flip() ? CmdSpec::DIRECT : CmdSpec::COPY_FROM;
        p = styled(p, p.style);
        number(p);
        Strs line;
        if (kind && !p.root.cmds.empty())
        {
            line.push_back(c.of(p.root.cmds).name);
            if (line[0] == "a")
                line.push_back("m");
        }
        check_views(c, p, line);
    }

    // Value ids are equal exactly when names are linked.
    void links(Chooser& c, bool quick)
    {
        static const Strs pool{"", "-x", "--yy", "-z", "A", "B", "k", "k2"};
        auto n = op({"-n"}, Op::NONE);
        std::vector<OptSpec> os{append({"-x"}), opt({"-y", "--yy"}, "V"), n, op({"-z"}, Op::CLEAR)};
        for (size_t i = 0; i < os.size(); ++i)
            if (i != 2)
                os[i].alias = c.of(pool);
        std::vector<ArgSpec> as{arg("A", 0, 1), arg("B", 0, 1)};
        for (auto& a : as)
            a.alias = pool[c.pick(quick && &a == &as[0] ? 4 : uint32_t(pool.size()))];
        const bool sub = !quick && c.flip();
        auto p = parser(sub ? root({}, {opt({"-x"})}, {cmd("sub", as, os)}) : root(as, os));
        number(p);
        check_views(c, p, sub ? Strs{"sub", "-x1", "v"} : Strs{"-x1", "v"}, true);
    }

    // The view of the source of every value.
    void sources(Chooser& c, const std::vector<ParserSpec>& specs, const Strs& alphabet, size_t most)
    {
        const auto& p = c.of(specs);
        const auto line = pick_line(c, alphabet, most);
        auto m = model_run(p, line);
        c.step(m.steps_taken);
        if (m.undefined || m.end != Outcome::RETURNED || m.failed)
        {
            c.outcome("nothing to see");
            return;
        }
        // the ids of the sources
        compare(c, p, line, {.values = true, .codes = false, .events = false, .unprocessed = false, .what = "source"});
        check_views(c, p, line);
    }

    // The last call of each setter counts.
    enum class Set { FLAG, FLAGS, HELP, HELP_FUNCTION, SECTION, ALIAS, VISIBILITY, ID, NONE, APPEND, ARGUMENT, NO_ARGUMENT, INITIAL, CONSTANT, CONSTANT_CHARS, CONSTANT_FALSE, CONSTANT_INT, CONSTANT_LONG, STOP, OPTIONAL, NOT_OPTIONAL, MANDATORY, NOT_MANDATORY, COPY, MOVE, SETS };

    void setters(Chooser& c, size_t most)
    {
        argos::Option o;
        OptSpec x;
        x.id = 5;
        const auto how = c.pick(4);
        switch (how)
        {
        case 0:
            o = argos::Option("-o");
            x.flags = {"-o"};
            break;
        case 1:
            o = argos::Option("-o", "--oo");
            x.flags = {"-o", "--oo"};
            break;
        case 2:
            o = argos::Option{"-o", "--oo", "--ooo"};
            x.flags = {"-o", "--oo", "--ooo"};
            break;
        default:
            o.flag("-o");
            x.flags = {"-o"};
            break;
        }
        o.id(5);
        const auto n = c.pick(uint32_t(most + 1));
        std::string log;
        for (uint32_t i = 0; i < n; ++i)
        {
            const auto s = Set(c.pick(uint32_t(Set::SETS)));
            log += std::to_string(int(s)) + " ";
            argos::Option* back = &o;
            switch (s)
            {
            case Set::FLAG: back = &o.flag("-p"); x.flags = {"-p"}; break;
            case Set::FLAGS: back = &o.flags({"-q", "--qq"}); x.flags = {"-q", "--qq"}; break;
            case Set::HELP: back = &o.help("text " + std::to_string(i)); x.help = "text " + std::to_string(i); break;
            case Set::HELP_FUNCTION: back = &o.help([i] { return "function " + std::to_string(i); }); x.help = "function " + std::to_string(i); break;
            case Set::SECTION: back = &o.section("S" + std::to_string(i)); x.section = "S" + std::to_string(i); break;
            case Set::ALIAS: back = &o.alias("a" + std::to_string(i)); x.alias = "a" + std::to_string(i); break;
            case Set::VISIBILITY: back = &o.visibility(Vis(i)); x.visibility = Vis(i); break;
            case Set::ID: back = &o.id(int(i) + 7); x.id = int(i) + 7; break;
            case Set::NONE: back = &o.operation(Op::NONE); x.op = Op::NONE; break;
            case Set::APPEND: back = &o.operation(Op::APPEND); x.op = Op::APPEND; break;
            case Set::ARGUMENT: back = &o.argument("V" + std::to_string(i)); x.argument = "V" + std::to_string(i); break;
            case Set::NO_ARGUMENT: back = &o.argument(""); x.argument = ""; break;
            case Set::INITIAL: back = &o.initial_value("i" + std::to_string(i)); x.initial = "i" + std::to_string(i); break;
            case Set::CONSTANT: back = &o.constant(std::string("c") + std::to_string(i)); x.constant = "c" + std::to_string(i); break;
            case Set::CONSTANT_CHARS: back = &o.constant("chars"); x.constant = "chars"; break;
            case Set::CONSTANT_FALSE: back = &o.constant(false); x.constant = "0"; break;
            case Set::CONSTANT_INT: back = &o.constant(-2147483647 - 1); x.constant = "-2147483648"; break;
            case Set::CONSTANT_LONG: back = &o.constant(9223372036854775807LL); x.constant = "9223372036854775807"; break;
            case Set::STOP: back = &o.type(Type::STOP); x.type = Type::STOP; break;
            case Set::OPTIONAL: back = &o.optional(); x.optional = true; break;
            case Set::NOT_OPTIONAL: back = &o.optional(false); x.optional = false; break;
            case Set::MANDATORY: back = &o.mandatory(); x.optional = false; break;
            case Set::NOT_MANDATORY: back = &o.mandatory(false); x.optional = true; break;
            case Set::COPY:
            {
                argos::Option y(o);
                o.help("changed").flag("-w").section("changed");
                o = y;
                y.help("changed").flag("-w");
                break;
            }
            case Set::MOVE:
            {
                argos::Option y(std::move(o));
                o = std::move(y);
                break;
            }
            default: break;
            }
            if (back != &o)
                c.fail("setter:chain", log + "did not return the option");
        }
        c.trace();
        c.state(log + std::to_string(how));
        argos::ArgumentParser p("prog");
        p.auto_exit(false).generate_help_option(false);
        std::ostringstream out;
        p.stream(&out);
        p.add(o);
        std::string got;
        try
        {
            auto it = p.make_iterator(std::vector<std::string_view>{});
            auto r = it.parsed_arguments();
            got = words(*r.all_options().at(0));
        }
        catch (argos::ArgosException&)
        {
            got = "rejected";
        }
        const auto expected = valid_option(x, Style::STANDARD) ? words(x) : "rejected";
        if (got != expected)
            c.fail("setter", log + "\nexpected: " + expected + "\nobserved: " + got);
        c.outcome(got == "rejected" ? got : "accepted");
    }

    // Sections of definitions follow the current section when they are added.
    void sections(Chooser& c)
    {
        argos::ArgumentParser p("prog");
        argos::Command sub("sub");
        std::ostringstream out;
        p.stream(&out).auto_exit(false).generate_help_option(false).require_subcommand(false);
        std::string current[2];
        std::vector<std::string> options[2], commands;
        std::string log;
        bool added = false;
        for (int i = 0; i < 5; ++i)
        {
            const auto k = c.pick(8);
            log += std::to_string(k) + " ";
            const bool to_sub = k & 1;
            if (to_sub && added)
                continue;
            const auto n = std::to_string(i);
            switch (k >> 1)
            {
            case 0:
                current[to_sub] = i % 2 ? "" : "S" + n;
                to_sub ? (void)sub.current_section(current[1]) : (void)p.current_section(current[0]);
                if (!to_sub && p.current_section() != current[0])
                    c.fail("section:getter", log + p.current_section());
                break;
            case 1:
                options[to_sub].push_back(current[to_sub]);
                to_sub ? (void)sub.add(argos::Option("--o" + n)) : (void)p.add(argos::Option("--o" + n));
                break;
            case 2:
                options[to_sub].push_back("own" + n);
                to_sub ? (void)sub.add(argos::Option("--o" + n).section("own" + n)) : (void)p.add(argos::Option("--o" + n).section("own" + n));
                break;
            case 3:
                if (to_sub)
                {
                    p.add(sub);
                    added = true;
                    commands.push_back(current[0]);
                }
                else
                {
                    p.add(argos::Command("c" + n).section("own" + n));
                    commands.push_back("own" + n);
                }
                break;
            }
        }
        c.trace();
        c.state(log);
        if (!added)
        {
            p.add(sub);
            commands.push_back(current[0]);
        }
        auto r = p.parse({"sub"});
        std::vector<std::string> got[3];
        for (auto& o : r.all_options())
            got[0].push_back(o->section());
        for (auto& o : r.subcommands().at(0).all_options())
            got[1].push_back(o->section());
        for (auto& o : r.all_subcommands())
            got[2].push_back(o->section());
        if (got[0] != options[0] || got[1] != options[1] || got[2] != commands)
            c.fail("section", log + "\nexpected " + show(options[0]) + show(options[1]) + show(commands) + "\nobserved " + show(got[0]) + show(got[1]) + show(got[2]));
        c.outcome("sections");
    }
}

Check mc::make_check(Tier tier)
{
    const bool q = quick(tier);
    Check k;
    k.id = "P34";
    k.families.push_back({"options", "every valid combination of 2 sets of flags x 4 operations x 6 types x argument x constant x alias x initial value x mandatory x 4 visibilities x help text, function or none x section x 2 places, seen by every route", options});
    k.families.push_back({"arguments", "7 counts x alias x 4 visibilities x help text, function or none x section x 2 orders x 3 places, seen by every route", arguments});
    k.families.push_back({"commands", "0 to 2 children x help x about x functions x section x 4 visibilities x require_subcommand x multi x 6 ways of adding x 2 depths, seen by every route", commands});
    k.families.push_back({"listings", "0 to 3 arguments, options and commands x 3 styles x automatic options x directly or by copy_from", listings});
    k.families.push_back({"links", "every link of 3 options and 2 arguments to one of 8 names: value ids are equal exactly when linked", [=](Chooser& c) { links(c, q); }});
    const size_t s = q ? 3 : 4;
    k.families.push_back({"setters", "every history of up to " + std::to_string(s) + " of 25 setter calls on an option made by any of 4 constructors", [=](Chooser& c) { setters(c, s); }});
    k.families.push_back({"sections", "every history of 5 of 8 steps changing sections and adding definitions to the program and a command", sections});
    const size_t n = q ? 2 : 3;
    for (auto z : {zoo_flat(), zoo_tree()})
    {
        for (auto& p : z.specs)
        {
            p.auto_exit = false;
            number(p);
        }
        k.families.push_back({z.specs.size() == 16 ? "sources-tree" : "sources-flat", std::to_string(z.specs.size()) + " definitions x every line of up to " + std::to_string(n) + " of " + std::to_string(z.alphabet.size()) + " tokens: the view of the source of every value",
                              [=](Chooser& c) { sources(c, z.specs, z.alphabet, n); }});
    }
    k.assumptions = {"of automatic options only flags and type are compared"};
    return k;
}
