#pragma once
#include "engine.hpp"
#include "spec.hpp"
#include <algorithm>
#include <functional>
#include <set>
#include <sstream>

namespace mc
{
    inline bool quick(Tier t) { return t == Tier::QUICK; }

    // Any sequence of up to `most` members of `alphabet`.
    inline Strs pick_line(Chooser& c, const Strs& alphabet, size_t most, size_t least = 0)
    {
        Strs r;
        const auto n = least + c.pick(uint32_t(most - least + 1));
        for (size_t i = 0; i < n; ++i)
            r.push_back(alphabet[c.pick(uint32_t(alphabet.size()))]);
        return r;
    }

    // Any string of up to `most` characters of `alphabet`.
    inline std::string pick_string(Chooser& c, const std::string& alphabet, size_t most, size_t least = 0)
    {
        std::string r;
        const auto n = least + c.pick(uint32_t(most - least + 1));
        for (size_t i = 0; i < n; ++i)
            r += alphabet[c.pick(uint32_t(alphabet.size()))];
        return r;
    }

    inline ParserSpec parser(CmdSpec root)
    {
        ParserSpec p;
        p.root = std::move(root);
        if (p.root.name.empty())
            p.root.name = "prog";
        return p;
    }

    inline CmdSpec root(std::vector<ArgSpec> args, std::vector<OptSpec> opts = {}, std::vector<CmdSpec> cmds = {})
    {
        return cmd("prog", std::move(args), std::move(opts), std::move(cmds));
    }

    inline OptSpec with(OptSpec o, std::function<void(OptSpec&)> f)
    {
        f(o);
        return o;
    }

    inline OptSpec append(Strs flags, std::string argument = "V")
    {
        auto o = opt(std::move(flags), std::move(argument));
        o.op = Op::APPEND;
        return o;
    }

    inline OptSpec typed(Strs flags, Type t, std::string argument = {})
    {
        auto o = opt(std::move(flags), std::move(argument));
        o.type = t;
        return o;
    }

    inline OptSpec op(Strs flags, Op x, std::string argument = {})
    {
        auto o = opt(std::move(flags), std::move(argument));
        o.op = x;
        return o;
    }

    constexpr unsigned MANY = 0xFFFFFFFFu;

    // Adapts flags of the standard style to another style.
    inline void restyle(CmdSpec& c, Style s)
    {
        auto f = [&](std::string& x)
        {
            if (x.empty() || x[0] != '-')
                return;
            if (x.size() > 2 && x[1] == '-')
                x = x.substr(1);
            if (s == Style::SLASH)
                x[0] = '/';
        };
        for (auto& o : c.opts)
        {
            for (auto& x : o.flags)
                f(x);
            f(o.alias);
        }
        for (auto& a : c.args)
            f(a.alias);
        for (auto& x : c.cmds)
            restyle(x, s);
    }

    inline ParserSpec styled(ParserSpec p, Style s)
    {
        if (s == Style::STANDARD)
            return p;
        p.style = s;
        restyle(p.root, s);
        return p;
    }

    inline const std::vector<Style>& styles()
    {
        static const std::vector<Style> s{Style::STANDARD, Style::SLASH, Style::DASH};
        return s;
    }

    // The common shape: one of `specs`, any line over `alphabet`.
    inline Family lines_family(std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most,
                               CompareOpts o = {}, std::vector<Route> routes = {Route::PARSE})
    {
        for (auto& p : specs)
            number(p);
        std::string bounds = std::to_string(specs.size()) + " definitions x every line of up to " + std::to_string(most)
                             + " tokens of " + show(alphabet);
        if (routes.size() > 1)
            bounds += " x " + std::to_string(routes.size()) + " entry points";
        return {std::move(name), std::move(bounds),
                [specs = std::move(specs), alphabet = std::move(alphabet), most, o, routes](Chooser& c)
                {
                    const auto& p = c.of(specs);
                    const auto route = c.of(routes);
                    compare(c, p, pick_line(c, alphabet, most), o, route);
                }};
    }

    inline ParserSpec tweak(ParserSpec p, std::function<void(ParserSpec&)> f)
    {
        f(p);
        return p;
    }
}

namespace mc
{
    // A diverse set of definitions for properties that concern every kind of
    // command line; they share one alphabet.
    struct Zoo
    {
        std::vector<ParserSpec> specs;
        Strs alphabet;
    };

    inline Zoo zoo_flat(Style s = Style::STANDARD)
    {
        Zoo z;
        auto must = [](OptSpec x)
        {
            x.optional = false;
            return x;
        };
        auto alias = [](OptSpec x, std::string a)
        {
            x.alias = std::move(a);
            return x;
        };
        const std::vector<std::vector<ArgSpec>> args{{}, {arg("A", 0, 1)}, {arg("A"), arg("B", 0, MANY)}};
        for (int i = 0; i < 6; ++i)
        {
            auto k = opt({"-k"});
            k.constant = "con";
            auto b = append({"-b", "--bb"});
            if (i & 1)
                b.initial = "ini";
            std::vector<OptSpec> os{opt({"-f", "--flag"}), b, alias(k, "-b"), alias(op({"-c"}, Op::CLEAR), "-b"), op({"-n"}, Op::NONE),
                                    typed({"-s"}, Type::STOP), typed({"-x"}, Type::EXIT), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-l"}, Type::LAST_OPTION)};
            if (i & 1)
                os.push_back(must(opt({"-m"}, "M")));
            auto p = parser(root(args[size_t(i / 2)], os));
            p.ign_opt = p.ign_arg = i & 1;
            p.gen_help = true;
            p.version = "1.2";
            z.specs.push_back(styled(p, s));
        }
        if (s == Style::STANDARD)
            z.alphabet = {"v", "", "-f", "-b", "-bx", "--bb=", "-k", "-c", "-n", "-fkc", "-s", "-fsk", "-x", "-e", "-l", "-m", "-h", "--help", "--version", "-zz", "--zz=1", "-"};
        else
        {
            const std::string P = s == Style::SLASH ? "/" : "-", N = s == Style::SLASH ? "-" : "/";
            z.alphabet = {"v", "", P + "f", P + "b", P + "bb=", P + "k", P + "c", P + "n", P + "s", P + "x", P + "e", P + "l", P + "m", P + "h", P + "help", P + "?", P + "version", P + "zz", P + "zz=1", P, N + "f"};
        }
        return z;
    }

    inline Zoo zoo_tree()
    {
        Zoo z;
        auto must = [](OptSpec x)
        {
            x.optional = false;
            return x;
        };
        for (int i = 0; i < 16; ++i)
        {
            auto b = append({"-b"});
            if (i & 1)
                b.initial = "ini";
            auto sub = cmd("sub", {arg("S", i & 2 ? 1 : 0, 2)}, {b, typed({"-e"}, Type::LAST_ARGUMENT), typed({"-s"}, Type::STOP)});
            if (i & 4)
                sub.opts.push_back(must(opt({"-q"})));
            auto leaf = cmd("leaf", {arg("L", 0, 1)}, {opt({"-f"}), typed({"-e"}, Type::LAST_ARGUMENT)});
            auto other = cmd("other", {}, {append({"-b"}), typed({"-l"}, Type::LAST_OPTION), typed({"-x"}, Type::EXIT)}, {leaf, cmd("twig", {arg("T", 0, MANY)})});
            if (i & 4)
                other.require = false;
            auto p = parser(root({}, {append({"-b"}), typed({"-l"}, Type::LAST_OPTION), typed({"-s"}, Type::STOP)}, {sub, other}));
            p.root.multi = i & 8;
            p.root.cmds[1].multi = (i & 1) && (i & 8);
            if (i & 4)
                p.root.require = false;
            p.ign_opt = p.ign_arg = (i & 3) == 3;
            p.gen_help = i & 2;
            z.specs.push_back(p);
        }
        z.alphabet = {"sub", "other", "leaf", "twig", "v", "-b", "-f", "-e", "-l", "-s", "-x", "-q", "-h", "-zz", "-b1"};
        return z;
    }

    // Every setting of a parser that can be switched.
    inline const std::vector<std::pair<std::string, void (*)(ParserSpec&)>>& switches()
    {
        static const std::vector<std::pair<std::string, void (*)(ParserSpec&)>> v{
            {"abbreviations", [](ParserSpec& p) { p.abbrev = !p.abbrev; }},
            {"case", [](ParserSpec& p) { p.ci = !p.ci; }},
            {"undefined options", [](ParserSpec& p) { p.ign_opt = !p.ign_opt; }},
            {"undefined arguments", [](ParserSpec& p) { p.ign_arg = !p.ign_arg; }},
            {"generated help", [](ParserSpec& p) { p.gen_help = !p.gen_help; }},
            {"auto exit", [](ParserSpec& p) { p.auto_exit = !p.auto_exit; }},
            {"version", [](ParserSpec& p) { p.version = p.version.empty() ? "1.2" : ""; }},
            {"parser's callbacks", [](ParserSpec& p) { p.opt_cb = p.arg_cb = !p.opt_cb; }},
            {"stream", [](ParserSpec& p) { p.custom_stream = !p.custom_stream; }},
            {"exit codes", [](ParserSpec& p) { p.error_code = 1, p.normal_code = 2; }},
            {"required sub-commands", [](ParserSpec& p)
             {
                 auto toggle = [](auto& self, CmdSpec& c) -> void
                 {
                     if (!c.cmds.empty())
                         c.require = !c.require.value_or(true);
                     for (auto& x : c.cmds)
                         self(self, x);
                 };
                 toggle(toggle, p.root);
             }},
            {"multiple sub-commands", [](ParserSpec& p)
             {
                 p.root.multi = !p.root.multi;
                 for (auto& x : p.root.cmds)
                     if (!x.cmds.empty())
                         x.multi = !x.multi;
             }},
        };
        return v;
    }

    // None, one or two of them.
    inline void pick_switches(Chooser& c, ParserSpec& p, bool two = true)
    {
        const auto n = uint32_t(switches().size());
        const auto a = c.pick(n + 1);
        if (!a)
            return;
        switches()[a - 1].second(p);
        if (const auto b = two ? c.pick(n - a + 1) : 0)
            switches()[a - 1 + b].second(p);
    }

    // An option of every shape: what it does to its value, where the value
    // comes from, what it does to the processing, whether it is mandatory,
    // has an initial value and shares its value.
    inline std::vector<OptSpec> option_shapes()
    {
        std::vector<OptSpec> shapes;
        for (auto kind : {Op::ASSIGN, Op::APPEND, Op::CLEAR, Op::NONE})
            for (int source = 0; source < 3; ++source) // plain, constant, argument
                for (auto type : {Type::NORMAL, Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION})
                    for (int bits = 0; bits < 8; ++bits)
                    {
                        OptSpec x;
                        x.flags = {"-o", "--oo"};
                        x.op = kind;
                        x.type = type;
                        if (source == 1)
                            x.constant = "con";
                        else if (source == 2)
                            x.argument = "arg";
                        x.optional = !(bits & 1);
                        if (bits & 2)
                            x.initial = "ini";
                        if (bits & 4)
                            x.alias = "-b";
                        if ((kind == Op::APPEND && source == 0)
                            || (kind == Op::NONE && (source == 1 || bits))
                            || (kind == Op::CLEAR && !x.optional))
                            continue;
                        shapes.push_back(x);
                    }
        return shapes;
    }

    // The zoo under all settings, also those that should make no difference
    // to the property in question.
    inline void cross_families(Check& k, bool q, const CompareOpts& o, std::function<void(Chooser&, const ParserSpec&, const Strs&)> body = {}, bool two = true)
    {
        if (!body)
            body = [o](Chooser& c, const ParserSpec& p, const Strs& line) { compare(c, p, line, o, o.iterate ? Route::ITERATE : Route::PARSE); };
        auto add = [&](const char* name, Zoo z, const Strs& extra, size_t most)
        {
            z.alphabet.insert(z.alphabet.end(), extra.begin(), extra.end());
            for (auto& p : z.specs)
                number(p);
            k.families.push_back({name, std::to_string(z.specs.size()) + " definitions x none" + (two ? ", one or two of " : " or one of ") + std::to_string(switches().size())
                                  + " settings changed x every line of up to " + std::to_string(most) + " tokens of " + show(z.alphabet),
                                  [z, most, body, two](Chooser& c)
                                  {
                                      auto p = c.of(z.specs);
                                      pick_switches(c, p, two);
                                      body(c, p, pick_line(c, z.alphabet, most));
                                  }});
        };
        add("cross-flat", zoo_flat(), {"-F", "--fl", "--FLAG", "--b", "--bb=x=y", "--B=1", "-b=1", "--HELP", "--vers", "-bb", "w"}, 2);
        auto slash = zoo_flat(Style::SLASH), dash = zoo_flat(Style::DASH);
        if (q)
            slash.specs = {slash.specs[3]}, dash.specs = {dash.specs[4]};
        add("cross-slash", slash, {"/F", "/fl", "/FLAG", "/bb=x=y", "/B=1", "/b=1", "/HELP", "/vers", "w"}, 2);
        add("cross-dash", dash, {"-F", "-fl", "-FLAG", "-bb=x=y", "-B=1", "-b=1", "-HELP", "-vers", "w"}, 2);
        add("cross-tree", zoo_tree(), {"SUB", "Other", "-B", "su", "-S"}, q ? 2 : 3);
        {
            // A chain of four commands, with what concerns several levels on
            // any one of them.
            std::vector<ParserSpec> specs;
            for (int must = -1; must < 4; ++must)
                for (int several = -1; several < 3; ++several)
                    for (int loose = -1; loose < 3; ++loose)
                    {
                        ParserSpec p = parser(root({}, {}));
                        CmdSpec last;
                        for (int level = 3; level >= 0; --level)
                        {
                            auto m = opt({"-m"});
                            m.optional = level != must;
                            auto o = append({"-o"});
                            o.initial = "ini";
                            auto x = cmd(std::string(1, char('a' + level - 1)), {}, {o, m, typed({"-e"}, Type::LAST_ARGUMENT), typed({"-s"}, Type::STOP), typed({"--"}, Type::LAST_OPTION)});
                            if (level == 3)
                                x.args = {arg("A", 0, 1)};
                            else
                            {
                                x.cmds = {last};
                                if (level == several)
                                {
                                    auto f = opt({"-f"});
                                    f.initial = "first";
                                    x.cmds.push_back(cmd("z", {arg("Z", 0, 1)}, {f}));
                                }
                                x.multi = level == several;
                                if (level == loose)
                                    x.require = false;
                            }
                            last = x;
                        }
                        p.opt_cb = p.arg_cb = true;
                        last.name = p.root.name;
                        p.root = last;
                        number(p);
                        specs.push_back(p);
                    }
            const Strs tokens{"a", "b", "c", "z", "-o1", "-m", "-e", "-s", "--", "v"};
            const size_t most = two ? q ? 3 : 4 : 2;
            k.families.push_back({"cross-deep", std::to_string(specs.size()) + " chains of four commands x the first 0..3 names of the chain followed by up to "
                                                    + std::to_string(most) + " tokens of " + show(tokens),
                                  [specs, tokens, most, body](Chooser& c)
                                  {
                                      const auto& p = c.of(specs);
                                      static const Strs names{"a", "b", "c"};
                                      Strs line(names.begin(), names.begin() + c.pick(4));
                                      const auto rest = pick_line(c, tokens, most);
                                      line.insert(line.end(), rest.begin(), rest.end());
                                      body(c, p, line);
                                  }});
        }
        auto shape_family = [&](const char* name, const std::vector<ParserSpec>& specs, const Strs& alphabet, size_t most)
        {
            k.families.push_back({name, std::to_string(specs.size()) + " definitions with an option of every shape (operation, source of the value, type, mandatory, initial value, alias) x every line of up to "
                                            + std::to_string(most) + " tokens of " + show(alphabet),
                                  [specs, alphabet, most, body](Chooser& c)
                                  {
                                      auto p = c.of(specs);
                                      body(c, p, pick_line(c, alphabet, most));
                                  }});
        };
        for (auto style : {Style::STANDARD, Style::SLASH, Style::DASH})
        {
            std::vector<ParserSpec> specs;
            for (auto& x : option_shapes())
            {
                auto p = styled(parser(root({arg("A", 0, 1)}, {x, append({"-b"})})), style);
                p.opt_cb = true;
                number(p);
                specs.push_back(p);
            }
            if (style == Style::STANDARD)
                shape_family("shapes-standard", specs, {"-o", "--oo", "-ov", "--oo=1", "-bo", "-b", "v"}, two ? 3 : 2);
            else if (style == Style::SLASH)
                shape_family("shapes-slash", specs, {"/o", "/oo", "/oo=1", "/b", "v"}, two && !q ? 3 : 2);
            else
                shape_family("shapes-dash", specs, {"-o", "-oo", "-oo=1", "-b", "v"}, two && !q ? 3 : 2);
        }
        {
            std::vector<ParserSpec> specs;
            for (auto& x : option_shapes())
            {
                auto p = parser(root({}, {}, {cmd("sub", {arg("A", 0, 1)}, {x, append({"-b"})})}));
                p.root.multi = true;
                p.opt_cb = true;
                number(p);
                specs.push_back(p);
            }
            shape_family("shapes-sub-command", specs, {"sub", "-o", "--oo=1", "-b", "v"}, two ? 4 : 3);
        }
    }

    // Definitions with so many parts that narrow counters would overflow.
    inline void many_family(Check& k, bool q, const CompareOpts& o)
    {
        const std::vector<size_t> sizes = q ? std::vector<size_t>{129, 257} : std::vector<size_t>{127, 128, 129, 255, 256, 257, 300};
        k.families.push_back({"many-parts", "a command with " + std::to_string(sizes.front()) + " to " + std::to_string(sizes.back()) + " options, flags of one option, arguments or sub-commands x settings x every two of those near the ends, 128 and 256",
                              [=](Chooser& c)
                              {
                                  const auto n = c.of(sizes);
                                  const auto kind = c.pick(4);
                                  static const std::vector<size_t> spots{0, 1, 126, 127, 128, 254, 255, 256, 298, 299};
                                  std::vector<size_t> at{n - 1};
                                  for (auto i : spots)
                                      if (i < n - 1)
                                          at.push_back(i);
                                  const auto i = c.of(at), j = kind == 2 ? at[c.pick(2)] : c.of(at);
                                  auto name = [](const char* prefix, size_t x) { return prefix + std::to_string(1000 + x); };
                                  ParserSpec p;
                                  Strs line;
                                  switch (kind)
                                  {
                                  case 0:
                                      p = parser(root({arg("A", 0, 1)}, {}));
                                      for (size_t x = 0; x < n; ++x)
                                          p.root.opts.push_back(append({name("--o", x)}));
                                      line = {name("--o", i) + "=x", name("--o", j), "y"};
                                      break;
                                  case 1:
                                      p = parser(root({arg("A", 0, 1)}, {append({name("--o", 0)}), append({"--p"})}));
                                      for (size_t x = 1; x < n; ++x)
                                          p.root.opts[0].flags.push_back(name("--o", x));
                                      line = {name("--o", i) + "=x", "v", name("--o", j), "y"};
                                      break;
                                  case 2:
                                      p = parser(root({}, {append({"-b"})}));
                                      for (size_t x = 0; x < n; ++x)
                                          p.root.args.push_back(arg(name("A", x), 0, 1));
                                      for (size_t x = 0; x <= i; ++x)
                                          line.push_back("v" + std::to_string(x));
                                      line.insert(line.begin() + std::min(i, j), "-bz");
                                      break;
                                  default:
                                      p = parser(root({}, {append({"-b"})}));
                                      p.root.multi = true;
                                      for (size_t x = 0; x < n; ++x)
                                          p.root.cmds.push_back(cmd(name("c", x), {arg("A", 0, 1)}, {append({"-o"})}));
                                      line = {name("c", i), "-ox", name("c", j), "v"};
                                  }
                                  p.opt_cb = p.arg_cb = true;
                                  p.abbrev = kind != 2 && c.flip();
                                  p.ci = kind != 2 && c.flip();
                                  number(p);
                                  compare(c, p, line, o);
                              }});
    }

    // The end of a real run in words, for comparing two real runs.
    inline std::string ending(const Outcome& r, bool streams = true)
    {
        std::string s;
        switch (r.end)
        {
        case Outcome::RETURNED: s = "returned " + text(r.root, true); break;
        case Outcome::EXITED: s = "exited with " + std::to_string(r.exit_code); break;
        case Outcome::THREW: s = "threw " + r.what; break;
        }
        s += "\ncallbacks:\n" + text(r.events);
        if (streams)
            s += "\nstream:\n" + r.custom + "\nstdout:\n" + r.out + "\nstderr:\n" + r.err;
        return s;
    }

    inline void expect_same(Chooser& c, const std::string& sig, const std::string& what, const std::string& a, const std::string& b,
                     const std::string& context)
    {
        if (a != b)
            c.fail(sig, context + what + "\nexpected: " + a + "\nobserved: " + b);
    }
}
