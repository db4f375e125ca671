// Histories of two commands and a parser; the functions have internal
// linkage in each check that includes this.
#pragma once
#include "views.hpp"
#include <optional>

namespace
{
namespace copies
{
    using namespace mc;
    using argos::ArgosException;

    // ------------------------------------------------------- fingerprints
    // Everything that can be seen of a definition, in words.
    std::vector<Strs> lines_for(const ParserSpec& p)
    {
        std::vector<Strs> r;
        auto below = [&](auto& self, const CmdSpec& c, const Strs& at) -> void
        {
            auto with = [&](Strs more)
            {
                auto l = at;
                l.insert(l.end(), more.begin(), more.end());
                r.push_back(l);
            };
            with({});
            with({"-h"});
            for (auto& o : c.opts)
                with({o.flags[0], "v"});
            Strs all;
            for (auto& o : c.opts)
                if (o.type == Type::NORMAL)
                {
                    all.push_back(o.flags.back());
                    if (!o.argument.empty())
                        all.push_back("w");
                }
            for (auto& a : c.args)
                all.push_back("in " + a.name);
            if (!all.empty())
                with(all);
            for (auto& s : c.cmds)
            {
                auto l = at;
                l.push_back(s.name);
                self(self, s, l);
                if (&s != &c.cmds.back())
                    with({s.name, c.cmds.back().name});
            }
        };
        below(below, p.root, {});
        return r;
    }

    std::string words_of(const argos::ArgumentParser& parser)
    {
        try
        {
            return words(parser.make_iterator(std::vector<std::string_view>{}).parsed_arguments().command());
        }
        catch (ArgosException&)
        {
            return "invalid";
        }
    }

    std::string said(Outcome o)
    {
        for (auto& e : o.events)
            e.snapshot.clear(); // depends on what the callback was built for
        return o.end == Outcome::THREW ? "threw\n" : ending(o);
    }

    std::string seen(argos::ArgumentParser& parser, const ParserSpec& p)
    {
        std::string r = words_of(parser);
        const auto lines = lines_for(p);
        for (auto& l : lines)
            r += "\n" + show(l) + ": " + said(real_run_on(parser, p, l, Route::PARSE_CONST));
        if (!lines.empty())
            r += "\n" + show(lines.back()) + ": " + said(real_run_on(parser, p, lines.back(), Route::PARSE));
        return r;
    }

    // The same for a parser that is built in one go and never copied: a new
    // one for each line.
    const std::string& expected(const ParserSpec& p)
    {
        static std::map<std::string, std::string> cache;
        const auto key = describe(p);
        auto it = cache.find(key);
        if (it != cache.end())
            return it->second;
        if (cache.size() > 60000)
            cache.clear();
        std::string r = valid_command(p.root, p) ? words(p, p.root, true) : "invalid";
        const auto lines = lines_for(p);
        for (auto& l : lines)
            r += "\n" + show(l) + ": " + said(real_run(p, l, Route::PARSE));
        if (!lines.empty())
            r += "\n" + show(lines.back()) + ": " + said(real_run(p, lines.back(), Route::PARSE));
        return cache.emplace(key, r).first->second;
    }

    ParserSpec program(CmdSpec c)
    {
        auto p = parser(root({}, {}, {std::move(c)}));
        p.gen_help = true;
        p.custom_stream = false;
        return p;
    }

    std::string difference(const std::string& a, const std::string& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        const auto from = i > 300 ? i - 300 : 0;
        return "expected: ..." + a.substr(from, 700) + "\nobserved: ..." + b.substr(from, 700);
    }

    // ---------------------------------------------------------- histories
    struct World
    {
        std::optional<CmdSpec> m[2];
        std::unique_ptr<argos::Command> r[2];
        bool open[2] = {}; // whether sub-commands are required is left open
        ParserSpec pm;
        std::unique_ptr<argos::ArgumentParser> pr;
        bool p_open = false, p_touched = false;
        int next = 100;
        std::string log;
    };

    OptSpec new_option(World& w, bool callback = true)
    {
        auto o = append({std::string("-") + char('a' + w.next % 26)});
        o.id = w.next++;
        o.help = "Help " + std::to_string(o.id) + ".";
        o.callback = callback;
        return o;
    }

    CmdSpec rich(int kind, int& id)
    {
        auto number_opt = [&](OptSpec o)
        {
            o.id = id++;
            o.help = "Help of " + o.flags[0];
            return o;
        };
        auto mand = number_opt(opt({"-M", "--mand"}, "MM"));
        mand.optional = false;
        mand.section = "Mandatory";
        auto con = number_opt(opt({"-C"}));
        con.constant = "const";
        con.alias = "shared";
        auto ini = number_opt(append({"-I", "--ini="}, "II"));
        ini.initial = "initial";
        ini.text_function = true;
        auto hidden = number_opt(typed({"-H"}, Type::LAST_ARGUMENT));
        hidden.visibility = Vis::HIDDEN;
        hidden.callback = false;
        auto a = arg("ARG", 0, 2);
        a.id = id++;
        a.alias = "shared2";
        a.help = "Help of ARG";
        a.section = "Arguments";
        a.visibility = Vis::TEXT;
        CmdSpec c = cmd("", {}, {con, ini, hidden});
        c.id = id++;
        if (kind == 0)
        {
            c.args = {a};
            c.opts.push_back(mand);
        }
        else
        {
            auto leaf = cmd("leaf", {a}, {mand});
            leaf.id = id++;
            leaf.texts[TextId::HELP] = "Help of leaf";
            leaf.texts[TextId::ERROR_USAGE] = "Leaf usage on errors";
            leaf.current = "Leaf section";
            auto twig = cmd("twig", {}, {number_opt(append({"-T"}))});
            twig.id = id++;
            twig.multi = true;
            twig.require = true;
            twig.cmds = {cmd("bud"), cmd("bug")};
            twig.cmds[0].id = id++;
            twig.cmds[1].id = id++;
            twig.visibility = Vis::USAGE;
            twig.section = "Twigs";
            c.cmds = {leaf, twig};
            c.multi = true;
        }
        c.texts[TextId::ABOUT] = "About it";
        c.text_functions.insert(TextId::ABOUT);
        return c;
    }

    enum Modify { OPTION, ARGUMENT, COMMAND, HELP, ABOUT, MULTI, NO_REQUIRE, SECTION, CURRENT, VISIBILITY, ID, NAME, MODIFIES };
    enum Move { COPY_NEW, COPY_ASSIGN, MOVE_NEW, MOVE_ASSIGN, COPY_FROM, ADD, ADD_COPY, SWAP, SELF_ASSIGN, MOVES };
    enum OnParser { P_OPTION, P_ABOUT, P_CURRENT, P_COPY_FROM_0, P_COPY_FROM_1, P_ADD_0, P_ADD_1, P_ADD_COPY_0, ON_PARSERS };

    template <typename Item>
    void in_section(Item& x, const std::string& current)
    {
        if (x.section.empty())
            x.section = current;
    }

    // Takes the contents of `from` over into `to`; nothing if that is refused.
    bool model_copy_from(CmdSpec& to, const CmdSpec& from, bool& open)
    {
        if ((!to.args.empty() || !from.args.empty()) && (!to.cmds.empty() || !from.cmds.empty()))
            return false;
        for (auto& [i, _] : from.texts)
            if (to.texts.count(i))
                return false;
        to.args.insert(to.args.end(), from.args.begin(), from.args.end());
        to.opts.insert(to.opts.end(), from.opts.begin(), from.opts.end());
        to.cmds.insert(to.cmds.end(), from.cmds.begin(), from.cmds.end());
        for (auto& [i, t] : from.texts)
        {
            to.texts[i] = t;
            if (from.text_functions.count(i))
                to.text_functions.insert(i);
        }
        to.multi = to.multi || from.multi;
        // Whether sub-commands are required is no content.
        open = open || from.require;
        return true;
    }

    bool model_add(CmdSpec& to, CmdSpec x)
    {
        if (!to.args.empty() || x.name.empty())
            return false;
        in_section(x, to.current);
        to.cmds.push_back(std::move(x));
        return true;
    }

    // Names that aren't declared by the command itself are not looked at by
    // callbacks, so no need to keep their definitions apart.
    void modify(Chooser& c, World& w, int i, Modify k)
    {
        static const char* names[] = {"add option", "add argument", "add command", "help", "about", "multi", "require(false)", "section", "current_section", "visibility", "id", "name"};
        auto& m = *w.m[i];
        auto& r = *w.r[i];
        w.log += std::string(names[k]) + " " + std::to_string(i) + "; ";
        bool threw = false, should = false;
        try
        {
            switch (k)
            {
            case OPTION:
            {
                auto o = new_option(w);
                r.add(make_option(o));
                in_section(o, m.current);
                m.opts.push_back(o);
                break;
            }
            case ARGUMENT:
            {
                auto a = arg("ARG" + std::to_string(w.next), 0, 1);
                a.id = w.next++;
                should = !m.cmds.empty();
                r.add(make_argument(a));
                in_section(a, m.current);
                m.args.push_back(a);
                break;
            }
            case COMMAND:
            {
                auto x = cmd("cmd" + std::to_string(w.next), {}, {append({"-N"})});
                x.id = w.next++;
                x.opts[0].id = w.next++;
                x.current = "Deep";
                should = !m.args.empty();
                r.add(make_command(x));
                model_add(m, x);
                break;
            }
            case HELP: r.help("Helped " + std::to_string(w.next)); m.texts[TextId::HELP] = "Helped " + std::to_string(w.next++); m.text_functions.erase(TextId::HELP); break;
            case ABOUT:
            {
                const auto t = "About " + std::to_string(w.next++);
                r.text(TextId::ABOUT, [t] { return t; });
                m.texts[TextId::ABOUT] = t;
                m.text_functions.insert(TextId::ABOUT);
                break;
            }
            case MULTI: r.allow_multiple_subcommands(true); m.multi = true; break;
            case NO_REQUIRE: r.require_subcommand(false); m.require = false; w.open[i] = false; break;
            case SECTION: r.section("Section"); m.section = "Section"; break;
            case CURRENT: r.current_section("Current"); m.current = "Current"; break;
            case VISIBILITY: r.visibility(Vis::TEXT); m.visibility = Vis::TEXT; break;
            case ID: r.id(w.next); m.id = w.next++; break;
            case NAME: r.name("name" + std::to_string(w.next)); m.name = "name" + std::to_string(w.next++); break;
            case MODIFIES: break;
            }
        }
        catch (ArgosException&)
        {
            threw = true;
        }
        if (threw != should)
            c.fail("copies:exception", w.log + (threw ? "an unexpected exception" : "no exception"));
    }

    void move(Chooser& c, World& w, Move k, int i)
    {
        static const char* names[] = {"copy-construct", "copy-assign", "move-construct", "move-assign", "copy_from", "add", "add a copy", "swap", "self-assign"};
        const int j = 1 - i;
        w.log += std::string(names[k]) + " " + std::to_string(j) + " <- " + std::to_string(i) + "; ";
        bool threw = false, should = false;
        try
        {
            switch (k)
            {
            case COPY_NEW: w.r[j] = std::make_unique<argos::Command>(*w.r[i]); w.m[j] = w.m[i]; w.open[j] = w.open[i]; break;
            case COPY_ASSIGN: *w.r[j] = *w.r[i]; w.m[j] = w.m[i]; w.open[j] = w.open[i]; break;
            case MOVE_NEW: w.r[j] = std::make_unique<argos::Command>(std::move(*w.r[i])); w.m[j] = std::move(w.m[i]); w.m[i].reset(); w.open[j] = w.open[i]; break;
            case MOVE_ASSIGN: *w.r[j] = std::move(*w.r[i]); w.m[j] = std::move(w.m[i]); w.m[i].reset(); w.open[j] = w.open[i]; break;
            case COPY_FROM:
                should = !model_copy_from(*w.m[j], *w.m[i], w.open[j]);
                if (!should)
                    w.open[j] = w.open[j] || w.open[i];
                w.r[j]->copy_from(*w.r[i]);
                break;
            case ADD:
                should = !model_add(*w.m[j], *w.m[i]);
                if (!should)
                    w.open[j] = w.open[j] || w.open[i];
                // what becomes of the one that was not taken is not looked at
                w.m[i].reset();
                w.r[j]->add(*w.r[i]);
                break;
            case ADD_COPY:
                should = !model_add(*w.m[j], *w.m[i]);
                if (!should)
                    w.open[j] = w.open[j] || w.open[i];
                w.r[j]->add(argos::Command(*w.r[i]));
                break;
            case SWAP: std::swap(*w.r[i], *w.r[j]); std::swap(w.m[i], w.m[j]); std::swap(w.open[i], w.open[j]); break;
            case SELF_ASSIGN:
            {
                auto& self = *w.r[i];
                *w.r[i] = self;
                break;
            }
            case MOVES: break;
            }
        }
        catch (ArgosException&)
        {
            threw = true;
        }
        if (threw != should)
            c.fail("copies:exception", w.log + (threw ? "an unexpected exception" : "no exception"));
    }

    void on_parser(Chooser& c, World& w, OnParser k)
    {
        static const char* names[] = {"parser add option", "parser about", "parser current_section", "parser copy_from 0", "parser copy_from 1", "parser add 0", "parser add 1", "parser add a copy of 0"};
        w.log += std::string(names[k]) + "; ";
        auto& m = w.pm.root;
        auto& r = *w.pr;
        w.p_touched = true;
        bool threw = false, should = false;
        try
        {
            switch (k)
            {
            case P_OPTION:
            {
                auto o = new_option(w, true);
                r.add(make_option(o));
                in_section(o, m.current);
                m.opts.push_back(o);
                break;
            }
            case P_ABOUT: r.about("About " + std::to_string(w.next)); m.texts[TextId::ABOUT] = "About " + std::to_string(w.next++); m.text_functions.erase(TextId::ABOUT); break;
            case P_CURRENT: r.current_section("Parser current"); m.current = "Parser current"; break;
            case P_COPY_FROM_0:
            case P_COPY_FROM_1:
            {
                const int i = k == P_COPY_FROM_1;
                should = !model_copy_from(m, *w.m[i], w.p_open);
                if (!should)
                    w.p_open = w.p_open || w.open[i];
                r.copy_from(*w.r[i]);
                break;
            }
            case P_ADD_0:
            case P_ADD_1:
            {
                const int i = k == P_ADD_1;
                should = !model_add(m, *w.m[i]);
                if (!should)
                    w.p_open = w.p_open || w.open[i];
                w.m[i].reset();
                r.add(*w.r[i]);
                break;
            }
            case P_ADD_COPY_0:
                should = !model_add(m, *w.m[0]);
                if (!should)
                    w.p_open = w.p_open || w.open[0];
                r.add(argos::Command(*w.r[0]));
                break;
            case ON_PARSERS: break;
            }
        }
        catch (ArgosException&)
        {
            threw = true;
        }
        if (threw != should)
            c.fail("copies:exception", w.log + (threw ? "an unexpected exception" : "no exception"));
    }

    void compare_world(Chooser& c, World& w)
    {
        for (int i = 0; i < 2; ++i)
        {
            if (!w.m[i] || w.open[i])
                continue;
            auto p = program(*w.m[i]);
            auto bare = p;
            bare.root.cmds.clear();
            auto real = make_parser(bare);
            real->add(std::move(*w.r[i]));
            c.trace();
            const auto want = expected(p), got = seen(*real, p);
            if (want != got)
                c.fail("copies:command", w.log + "\ncommand " + std::to_string(i) + " differs from\n" + describe(p) + difference(want, got));
            c.state(hash64(want));
        }
        if (!w.p_open && w.p_touched)
        {
            c.trace();
            const auto want = expected(w.pm), got = seen(*w.pr, w.pm);
            if (want != got)
                c.fail("copies:parser", w.log + "\nthe parser differs from\n" + describe(w.pm) + difference(want, got));
            c.state(hash64(want));
        }
    }

    void history(Chooser& c, uint32_t depth)
    {
        World w;
        int id = 1;
        const auto start = c.pick(5);
        // rich with arguments, rich with commands, empty
        const int kinds[5][2] = {{0, 2}, {1, 2}, {0, 0}, {1, 1}, {0, 1}};
        for (int i = 0; i < 2; ++i)
        {
            const auto k = kinds[start][i];
            auto m = k == 2 ? cmd("") : rich(k, id);
            m.name = i ? "two" : "one";
            if (i)
            {
                m.texts.clear();
                m.text_functions.clear();
                if (k == 1)
                    for (auto& x : m.cmds)
                        x.name += "2";
                for (auto& o : m.opts)
                    for (auto& f : o.flags)
                        f = f[1] == '-' ? "--2" + f.substr(2) : std::string("-") + char(f[1] + 1);
            }
            if (m.id == 0)
                m.id = id++;
            w.m[i] = m;
            w.r[i] = std::make_unique<argos::Command>(make_command(m));
        }
        w.pm = parser(root({}, {}, {}));
        w.pm.gen_help = true;
        w.pm.custom_stream = false;
        w.pr = make_parser(w.pm);
        w.log = "start " + std::to_string(start) + ": ";
        for (uint32_t n = 0; n < depth; ++n)
        {
            // what can be done now
            struct Do
            {
                int what, i, k;
            };
            std::vector<Do> dos;
            for (int i = 0; i < 2; ++i)
            {
                if (!w.m[i])
                    continue;
                for (int k = 0; k < MODIFIES; ++k)
                    dos.push_back({0, i, k});
                for (int k = 0; k < MOVES; ++k)
                    if (w.m[1 - i] || (k != COPY_FROM && k != ADD && k != ADD_COPY && k != SWAP))
                        dos.push_back({1, i, k});
            }
            for (int k = 0; k < ON_PARSERS; ++k)
                if (k < P_COPY_FROM_0 || w.m[k == P_COPY_FROM_1 || k == P_ADD_1])
                    dos.push_back({2, 0, k});
            // one more alternative: nothing more is done
            const auto at = c.pick(uint32_t(dos.size() + 1));
            if (at == 0)
                break;
            const auto d = dos[at - 1];
            c.step();
            if (d.what == 0)
                modify(c, w, d.i, Modify(d.k));
            else if (d.what == 1)
                move(c, w, Move(d.k), d.i);
            else
                on_parser(c, w, OnParser(d.k));
        }
        c.outcome(std::string(w.m[0] ? "0" : "") + (w.m[1] ? "1" : "") + (w.open[0] || w.open[1] || w.p_open ? " open" : ""));
        c.sample([&] { return w.log; });
        compare_world(c, w);
    }
}
}
