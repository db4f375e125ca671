// The single-file distribution and the library side by side in one process.
#include "common.hpp"
#include "checks/single_driver.inc"

// single_shim.cpp
std::string single_transcript(const void* spec, const std::vector<std::string>& line, int mode);
std::string single_constants();
size_t single_spec_size();

using namespace mc;

namespace
{
    const char* modes[] = {"parse", "argv", "iterate", "help"};

    void same(Chooser& c, const ParserSpec& p, const Strs& line, int mode)
    {
        c.trace();
        c.step();
        c.state(hash64(show(line), hash64(describe(p))) + uint64_t(mode));
        const auto a = transcript(p, line, mode), b = single_transcript(&p, line, mode);
        if (a != b)
        {
            // the first line that differs
            std::istringstream x(a), y(b);
            std::string s, t;
            while (true)
            {
                const bool ok1 = bool(std::getline(x, s)), ok2 = bool(std::getline(y, t));
                if (!ok1)
                    s = "(nothing)";
                if (!ok2)
                    t = "(nothing)";
                if (s != t || !ok1 || !ok2)
                    break;
            }
            c.fail(modes[mode], describe(p) + show(line) + " " + modes[mode] + "\nlibrary: " + s + "\nsingle file: " + t + "\n\nlibrary:\n" + a + "\n\nsingle file:\n" + b);
        }
        c.outcome(std::string(modes[mode]) + " " + a.substr(0, a.find('\n')).substr(0, 40));
        c.sample([&] { return describe(p) + show(line) + " " + modes[mode]; });
    }

    void lines(Chooser& c, const std::vector<ParserSpec>& specs, const Strs& alphabet, size_t most, uint32_t settings, uint32_t kinds)
    {
        auto p = c.of(specs);
        const auto k = c.pick(settings);
        p.abbrev = k & 1;
        p.ci = k & 2;
        if (k & 4)
            p.auto_exit = !p.auto_exit;
        p.line_width = 60;
        const auto line = pick_line(c, alphabet, most);
        same(c, p, line, int(c.pick(kinds)));
    }

    void callbacks(Chooser& c)
    {
        using A = Act;
        static const std::vector<std::vector<Act>> acts{{}, {{A::ASSIGN, "-o", {"x"}}}, {{A::APPEND, "A", {"x"}}}, {{A::CLEAR, "-o", {}}}, {{A::INSERT, "", {"-c"}}}, {{A::INSERT, "", {"v", "--oo=1"}}},
                                                        {{A::ERROR, "", {"bad"}}}, {{A::ERROR_ARG, "", {"bad"}}}, {{A::VIEW_ASSIGN, "", {"y"}}}, {{A::VIEW_APPEND, "", {"y"}}}, {{A::VIEW_CLEAR, "", {}}}};
        auto o = append({"-o", "--oo"});
        o.acts = c.of(acts);
        auto a = arg("A", 0, MANY);
        a.acts = c.of(acts);
        auto p = parser(root({a}, {o, opt({"-c"})}));
        p.opt_cb = p.arg_cb = c.flip();
        number(p);
        static const Strs alphabet{"v", "-o1", "--oo", "-c"};
        const auto line = pick_line(c, alphabet, 3);
        same(c, p, line, int(c.pick(3)));
    }

    void help(Chooser& c, bool quick)
    {
        static const std::vector<Vis> vis{Vis::HIDDEN, Vis::USAGE, Vis::TEXT, Vis::NORMAL};
        static const Strs texts{"", "Short.", "A text that must be wrapped in every width, with complicated words.\n\n* item one that is long\n  continued\n\tindented text, indented", "a\tb"};
        auto f = opt({"-f", "--flag"}, "VALUE"), g = opt({"-g"});
        f.visibility = c.of(vis);
        f.help = c.of(texts);
        g.section = c.flip() ? "ITEMS" : "";
        g.optional = c.flip();
        g.help = "Help of g.";
        auto a = arg("ARG", c.pick(2), c.flip() ? 1 : MANY);
        a.help = c.of(texts);
        a.section = c.flip() ? "ITEMS" : "";
        auto s = cmd("sub", {a}, {f}), t = cmd("other", {}, {g});
        s.visibility = quick ? vis[2 * c.pick(2)] : c.of(vis);
        s.texts[TextId::HELP] = quick ? texts[2 * c.pick(2)] : c.of(texts);
        t.section = c.flip() ? "ITEMS" : "";
        static const std::vector<TextId> ids{TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::ABOUT, TextId::SUBCOMMANDS_TITLE, TextId::OPTIONS_TITLE, TextId::FINAL_TEXT, TextId::ERROR_USAGE};
        const bool tree = c.flip();
        auto p = parser(tree ? root({}, {g}, {s, t}) : root({a}, {f, g}));
        const auto n = c.pick(quick ? 3 : uint32_t(ids.size() + 1));
        if (n)
            p.root.texts[ids[n - 1]] = texts[2];
        p.gen_help = true;
        static const std::vector<unsigned> widths{0, 12, 30, 80};
        p.line_width = c.of(widths);
        console().columns = p.line_width ? -1 : 50;
        p.version = "9.9";
        number(p);
        same(c, p, tree && c.flip() ? Strs{"sub"} : Strs{}, 3);
    }

    void texts(Chooser& c, size_t most)
    {
        auto p = parser(root({}, {opt({"-f"})}));
        p.root.texts[TextId::ABOUT] = pick_string(c, "ab \n\t-*\xC3\xA5", most);
        p.line_width = 3 + c.pick(6);
        number(p);
        same(c, p, {}, 3);
    }

    void values(Chooser& c, size_t most)
    {
        auto p = parser(root({arg("A", 0, MANY)}, {append({"-b"})}));
        number(p);
        const auto n = 1 + c.pick(2);
        Strs line;
        for (size_t i = 0; i < n; ++i)
            line.push_back(pick_string(c, "0179afx+.eE-, tT", n == 1 ? most : most - 1));
        same(c, p, line, 0);
    }

    void limits(Chooser& c)
    {
        auto p = parser(root({arg("A", 0, MANY)}));
        number(p);
        static const Strs bases{"127", "32767", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", "340282346638528859811704183484516925440", "true", "false", "TRUE", "inf", "nan", "1e308", "1e-320", "1e400", "0x1p4"};
        auto s = c.of(bases);
        const auto d = c.pick(10);
        if (s.back() >= '0' && s.back() <= '9')
            s.back() = char('0' + d);
        const auto sign = c.pick(3);
        if (sign)
            s = (sign == 1 ? "-" : "+") + s;
        auto q = p;
        q.ign_opt = true;
        same(c, q, {"v", s}, 0);
        same(c, q, {"0", s.substr(sign ? 1 : 0)}, 0);
    }

    void invalid(Chooser& c, size_t most)
    {
        auto p = parser(root({}));
        p.style = c.of(styles());
        auto o = opt({pick_string(c, "-/=aA ", most), p.style == Style::SLASH ? "/a" : "-a"});
        if (c.flip())
            o.argument = "V";
        if (c.flip())
            o.constant = "con";
        static const std::vector<Op> ops{Op::NONE, Op::ASSIGN, Op::APPEND};
        o.op = c.of(ops);
        p.root.opts = {o};
        p.ci = c.flip();
        p.gen_help = true;
        number(p);
        same(c, p, {}, c.flip() ? 0 : 3);
    }

    void the_constants(Chooser& c)
    {
        c.trace();
        c.state("constants");
        if (constants() != single_constants() || single_spec_size() != sizeof(ParserSpec) * 1000003 + sizeof(OptSpec) * 1009 + sizeof(ArgSpec))
            c.fail("constants", constants() + "\n" + single_constants());
        c.outcome(constants());
    }
}

Check mc::make_check(Tier tier)
{
    const bool q = quick(tier);
    Check k;
    k.id = "P33";
    k.families.push_back({"constants", "every enumerator, version constant and default name", the_constants});
    const size_t n = q ? 2 : 3;
    for (auto s : styles())
    {
        auto z = zoo_flat(s);
        std::vector<ParserSpec> specs;
        for (auto& p : z.specs)
        {
            auto x = p;
            number(x);
            specs.push_back(x);
        }
        k.families.push_back({std::string("lines-") + (s == Style::STANDARD ? "standard" : s == Style::SLASH ? "slash" : "dash"),
                              std::to_string(specs.size()) + " definitions x " + (q ? "4" : "8") + " settings x every line of up to " + std::to_string(n) + " of " + std::to_string(z.alphabet.size()) + " tokens x parse, argv, iterate",
                              [=](Chooser& c) { lines(c, specs, z.alphabet, n, q ? 4 : 8, 3); }});
    }
    auto z = zoo_tree();
    for (auto& p : z.specs)
        number(p);
    const size_t m = q ? 2 : 3;
    k.families.push_back({"lines-tree", std::to_string(z.specs.size()) + " trees x " + (q ? "2" : "4") + " settings x every line of up to " + std::to_string(m) + " of " + std::to_string(z.alphabet.size()) + " tokens x parse, argv, iterate",
                          [=](Chooser& c) { lines(c, z.specs, z.alphabet, m, q ? 2 : 4, 3); }});
    k.families.push_back({"callbacks", "11 x 11 callback actions x parser-wide callbacks x every line of up to three of 4 tokens x parse, argv, iterate", callbacks});
    k.families.push_back({"help", "visibilities, texts, sections, counts, widths and custom texts of a command and a tree", [=](Chooser& c) { help(c, q); }});
    const size_t t = q ? 5 : 6;
    k.families.push_back({"texts", "every text of up to " + std::to_string(t) + " of 9 bytes at 6 widths", [=](Chooser& c) { texts(c, t); }});
    const size_t v = q ? 3 : 4;
    k.families.push_back({"values", "every value of up to " + std::to_string(v) + " of 16 characters, or two shorter ones, through every accessor", [=](Chooser& c) { values(c, v); }});
    k.families.push_back({"limits", "16 values at the limits of the types x last digit x sign through every accessor", limits});
    const size_t f = q ? 4 : 5;
    k.families.push_back({"invalid", "every flag of up to " + std::to_string(f) + " of 6 characters x argument x constant x operation x style: accepted or rejected alike", [=](Chooser& c) { invalid(c, f); }});
    {
        std::vector<ParserSpec> specs;
        Strs alphabet{"-", "v", "--", "--=x", "--=", "-a=x", "//", "//=x", "/=", "/a=x"};
        for (auto s : styles())
        {
            auto p = styled(parser(root({arg("A", 0, 2)}, {opt({"--"}, "X"), append({"-a"})})), s);
            if (s == Style::SLASH)
                p.root.opts[0].flags = {"//"};
            number(p);
            specs.push_back(p);
        }
        k.families.push_back({"short-flags", "an option whose flag is two dashes or slashes in each style x settings x every line of up to " + std::to_string(q ? 2 : 3) + " of " + show(alphabet) + " x parse, argv, iterate",
                              [=](Chooser& c) { lines(c, specs, alphabet, q ? 2 : 3, 8, 3); }});
    }
    cross_families(k, q, {}, [](Chooser& c, const ParserSpec& p, const Strs& line) { same(c, p, line, 0); }, false);
    k.assumptions = {"the amalgamated source is compiled with its namespace renamed, so both libraries live in one process", "the position in the text of an exception (file and line) is not compared"};
    return k;
}
