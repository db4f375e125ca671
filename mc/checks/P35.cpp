// The listing of a result.
#include "common.hpp"
using namespace mc;

namespace
{
    struct Line
    {
        Strs names;                      // of this definition
        std::vector<std::string> linked; // all names it brings together
        bool valueless = false;
    };

    Strs flags_of(const argos::OptionView& v)
    {
        return v.flags();
    }

    std::string quoted(const std::vector<std::string>& v)
    {
        std::string s;
        for (auto& x : v)
            s += " \"" + x + "\"";
        return s;
    }

    std::string joined_names(const Strs& v)
    {
        std::string s;
        for (auto& x : v)
            s += (s.empty() ? "" : ", ") + x;
        return s;
    }

    const CmdSpec* find(const CmdSpec& c, const std::string& n)
    {
        for (auto& x : c.cmds)
            if (x.name == n)
                return &x;
        return nullptr;
    }

    // What is said about one command; the lines may come in any order.
    struct Part
    {
        std::string header;
        Strs lines;
        std::string tail;
    };

    // What the listing should say, from the definition `spec`, the contents
    // `got` and, for the options that are added automatically, `real`.
    void listing(const CmdSpec& spec, const CmdOut& got, const argos::ParsedArguments& real, const std::string& header, std::vector<Part>& parts)
    {
        std::vector<Line> lines;
        for (auto& a : spec.args)
            lines.push_back({{a.name}, {a.name, a.alias}, false});
        for (auto& o : spec.opts)
        {
            auto l = o.flags;
            l.push_back(o.alias);
            lines.push_back({o.flags, l, o.op == Op::NONE});
        }
        const auto views = real.all_options();
        for (size_t i = spec.opts.size(); i < views.size(); ++i)
            lines.push_back({flags_of(*views[i]), flags_of(*views[i]), views[i]->operation() == Op::NONE});
        // Lines that share a name belong together, also by way of others.
        std::vector<size_t> group(lines.size());
        for (size_t i = 0; i < lines.size(); ++i)
            group[i] = i;
        for (bool again = true; again;)
        {
            again = false;
            for (size_t i = 0; i < lines.size(); ++i)
                for (size_t j = 0; j < i; ++j)
                {
                    bool share = lines[i].valueless && lines[j].valueless;
                    if (!lines[i].valueless && !lines[j].valueless)
                        for (auto& n : lines[i].linked)
                            share = share || (!n.empty() && std::count(lines[j].linked.begin(), lines[j].linked.end(), n));
                    if (share && group[i] != group[j])
                    {
                        group[i] = group[j] = std::min(group[i], group[j]);
                        again = true;
                    }
                }
        }
        Strs text;
        for (size_t g = 0; g < lines.size(); ++g)
        {
            if (group[g] != g)
                continue;
            Strs names;
            for (size_t i = g; i < lines.size(); ++i)
                if (group[i] == g)
                    names.push_back(joined_names(lines[i].names));
            Strs values;
            if (!lines[g].valueless)
            {
                bool known = false;
                for (auto& [n, v] : got.values)
                    if (n == lines[g].names[0])
                    {
                        known = true;
                        for (auto& x : v)
                            values.push_back(x.text);
                    }
                if (!known)
                    for (auto v : real.values(lines[g].names[0]).as_strings())
                        values.push_back(v);
            }
            text.push_back(joined_names(names) + ":" + quoted(values) + "\n");
        }
        parts.push_back({header, text, got.unprocessed.empty() ? "" : "Unprocessed arguments:" + quoted(got.unprocessed)});
        const auto subs = real.subcommands();
        for (size_t i = 0; i < got.subs.size() && i < subs.size(); ++i)
            listing(*find(spec, got.subs[i].name), got.subs[i], subs[i], "Subcommand: " + got.subs[i].name + "\n", parts);
    }

    // Empty lines between the parts make no difference.
    bool matches(const std::string& text, std::vector<Part> parts)
    {
        size_t pos = 0;
        auto eat = [&](const std::string& s)
        {
            if (text.compare(pos, s.size(), s) != 0)
                return false;
            pos += s.size();
            return true;
        };
        auto gap = [&]
        {
            while (pos < text.size() && text[pos] == '\n')
                ++pos;
        };
        for (auto& p : parts)
        {
            gap();
            if (!eat(p.header))
                return false;
            gap();
            while (!p.lines.empty())
            {
                const auto it = std::find_if(p.lines.begin(), p.lines.end(), eat);
                if (it == p.lines.end())
                    return false;
                p.lines.erase(it);
            }
            gap();
            if (!eat(p.tail))
                return false;
        }
        gap();
        return pos == text.size();
    }

    std::string printed(const argos::ParsedArguments& r)
    {
        std::ostringstream s;
        argos::print(r, s);
        return s.str();
    }

    enum How { STREAM, STDOUT, COPY, PARSER_GONE, STEPS, HOWS };

    void check(Chooser& c, const ParserSpec& p, const Strs& line, How how)
    {
        const auto context = "command line " + show(line) + ", way " + std::to_string(how) + "\n" + describe(p);
        std::ostringstream custom;
        auto parser = make_parser(p);
        parser->stream(&custom);
        auto tokens = line;
        auto same = [&](const std::string& what, const argos::ParsedArguments& r, const CmdOut& got, const std::string& text)
        {
            c.trace();
            std::vector<Part> parts;
            listing(p.root, got, r, "", parts);
            if (matches(text, parts))
                return;
            std::string want;
            for (auto& x : parts)
            {
                want += x.header;
                for (auto& l : x.lines)
                    want += l;
                want += x.tail + "\n";
            }
            c.fail("print:" + what, context + "expected listing (lines in any order):\n" + want + "\nobserved listing:\n" + text);
        };
        RunLog log;
        g_log = &log;
        try
        {
            std::vector<std::string_view> sv(tokens.begin(), tokens.end());
            if (how == STEPS)
            {
                auto it = parser->make_iterator(sv);
                const auto root = it.parsed_arguments();
                std::unique_ptr<argos::IArgumentView> view;
                std::string_view value;
                for (bool more = true; more;)
                {
                    same("step", root, observe(root), printed(root));
                    c.step();
                    try
                    {
                        more = it.next(view, value);
                    }
                    catch (argos::ArgosException&)
                    {
                        more = false;
                    }
                }
                g_log = nullptr;
                return;
            }
            std::optional<argos::ParsedArguments> parsed;
            try
            {
                parsed = parser->parse(sv);
            }
            catch (argos::ArgosException&)
            {
                g_log = nullptr;
                c.outcome("no result");
                return;
            }
            auto& r = *parsed;
            g_log = nullptr;
            auto m = model_run(p, line);
            const bool known = !m.undefined && !m.failed && m.end == Outcome::RETURNED;
            const auto got = known ? m.root : observe(r);
            for (auto h : m.states)
                c.state(h);
            c.outcome(std::string(known ? "model" : "result") + (got.subs.empty() ? "" : " sub-commands") + (got.unprocessed.empty() ? "" : " unprocessed"));
            c.step(m.steps_taken);
            std::string text;
            switch (how)
            {
            case STDOUT:
            {
                Capture cap;
                argos::print(r);
                text = cap.out();
                if (!cap.err().empty())
                    c.fail("print:stderr", context + cap.err());
                break;
            }
            case COPY:
            {
                auto r2 = r;
                argos::ParsedArguments r3(std::move(r2));
                text = printed(r3);
                break;
            }
            case PARSER_GONE:
                parser.reset();
                for (auto& t : tokens)
                    std::fill(t.begin(), t.end(), '#');
                tokens.clear();
                text = printed(r);
                break;
            default: text = printed(r); break;
            }
            same("text", r, got, text);
            if (printed(r) != text)
                c.fail("print:repeat", context + "the second listing differs:\n" + printed(r));
            if (known)
                c.sample([&] { return "command line " + show(line) + ":\n" + text; });
        }
        catch (argos::ArgosException& e)
        {
            g_log = nullptr;
            c.fail("print:threw", context + e.what());
        }
    }

    Family family(std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most)
    {
        for (auto& p : specs)
            number(p);
        return {name, std::to_string(specs.size()) + " definitions x " + std::to_string(HOWS)
                          + " ways of printing (to a stream, to standard output, from a copy, after the parser and the tokens are gone, after each step of an iterator) x every line of up to "
                          + std::to_string(most) + " tokens of " + show(alphabet),
                [=](Chooser& c)
                {
                    auto p = c.of(specs);
                    const auto how = How(c.pick(HOWS));
                    check(c, p, pick_line(c, alphabet, most), how);
                }};
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P35";
    const bool q = quick(tier);
    for (auto s : styles())
    {
        auto z = zoo_flat(s);
        for (auto& p : z.specs)
            p.ign_opt = p.ign_arg = true;
        k.families.push_back(family(s == Style::STANDARD ? "options" : s == Style::SLASH ? "slash" : "dash", z.specs, z.alphabet, q ? 2 : 3));
    }
    k.families.push_back({"bytes", "every byte value in the value of an argument and of an option and in an unprocessed argument, alone, first, last and inside a text, every way of printing",
                          [](Chooser& c)
                          {
                              auto p = parser(root({arg("A", 0, 2)}, {append({"-b"})}));
                              p.ign_opt = p.ign_arg = true;
                              number(p);
                              const std::string b(1, char(c.pick(256)));
                              const auto where = c.pick(4);
                              const auto t = (where & 1 ? "x" : "") + b + (where & 2 ? "y" : "");
                              const auto how = How(c.pick(HOWS));
                              check(c, p, {"-b", t, "-b", "v" + b + b + "v", "--zz=" + t, "1" + t, "2", "3" + t}, how);
                          }});
    auto tree = zoo_tree();
    k.families.push_back(family("sub-commands", tree.specs, tree.alphabet, q ? 3 : 4));
    {
        // everything multi, ignoring, nested twice
        auto leaf = cmd("leaf", {arg("L", 0, MANY)}, {append({"-b"}), opt({"-n"})});
        auto mid = cmd("mid", {}, {append({"-b"})}, {leaf, cmd("void")});
        mid.multi = true;
        auto p = parser(root({}, {append({"-b"})}, {mid, cmd("flat", {arg("F", 0, 2)}, {append({"-b", "--bb"})})}));
        p.root.multi = true;
        p.ign_opt = p.ign_arg = true;
        auto r = p;
        r.root.require = false;
        r.root.cmds[0].require = false;
        k.families.push_back(family("deep", {p, r}, {"mid", "leaf", "void", "flat", "-b1", "-n", "-q", "w", "x y"}, q ? 4 : 5));
    }
    // What is stored and left over, with every kind of text in it.
    {
        const Strs texts{"", " ", "\"", "\\", "a\nb", "\n", ": ", "\xC3\xA6", "\t", ", ", "--q", "x y"};
        auto p = parser(root({arg("A", 0, 2)}, {append({"-b"}), append({"-c", "--cc"})}));
        p.ign_arg = p.ign_opt = true;
        number(p);
        k.families.push_back({"texts", "every line of up to " + std::to_string(q ? 4 : 5) + " tokens, each an argument, a value of -b or a value of -c, with the texts " + show(texts),
                              [=](Chooser& c)
                              {
                                  Strs line;
                                  const auto n = c.pick(q ? 4 : 5);
                                  for (uint32_t i = 0; i < n; ++i)
                                  {
                                      const auto kind = c.pick(3);
                                      if (kind)
                                          line.push_back(kind == 1 ? "-b" : "--cc");
                                      line.push_back(c.of(texts));
                                  }
                                  check(c, p, line, STREAM);
                              }});
    }
    // Every way in which a few definitions can share values.
    {
        const Strs pool = q ? Strs{"", "-x", "-z", "A", "k"} : Strs{"", "-x", "--yy", "-z", "A", "B", "k", "j"};
        k.families.push_back({"links", "every order of -x, -y/--yy and -z (each keeping a value or none), each linked to one of " + show(pool) + " x 0..2 arguments, also linked x the lines [], [-x1 -y2 w -z3 w]",
                              [=](Chooser& c)
                              {
                                  std::vector<int> order{0, 1, 2};
                                  const auto perm = c.pick(6);
                                  for (uint32_t i = 0; i < perm; ++i)
                                      std::next_permutation(order.begin(), order.end());
                                  std::vector<OptSpec> os{append({"-x"}), append({"-y", "--yy"}), append({"-z"})};
                                  const auto none = c.pick(5);
                                  for (size_t i = 0; i < os.size(); ++i)
                                  {
                                      if (none == i || (none == 4 && i != 1))
                                          os[i] = op(os[i].flags, Op::NONE, "V");
                                      else
                                          os[i].alias = c.of(pool);
                                  }
                                  std::vector<OptSpec> sorted;
                                  for (int i : order)
                                      sorted.push_back(os[size_t(i)]);
                                  std::vector<ArgSpec> as;
                                  const auto n = c.pick(3);
                                  for (uint32_t i = 0; i < n; ++i)
                                  {
                                      as.push_back(arg(std::string(1, char('A' + i)), 0, i + 1));
                                      as.back().alias = c.of(pool);
                                  }
                                  auto p = parser(root(as, sorted));
                                  p.ign_arg = true;
                                  number(p);
                                  check(c, p, c.flip() ? Strs{"-x1", "-y2", "w", "-z3", "w"} : Strs{}, STREAM);
                              }});
    }
    // Values that callbacks put there.
    {
        const std::vector<Act> acts{{Act::INSERT, "", {"-f"}, 2}, {Act::INSERT, "", {"w", "-bz"}, 1}, {Act::ASSIGN, "-b", {"N"}, 9}, {Act::CLEAR, "-b", {}, 9}, {Act::VIEW_APPEND, "", {"P"}, 9}, {Act::ERROR, "", {"no"}, 1}, {Act::APPEND, "B", {"1", "2"}, 2}};
        std::vector<ParserSpec> act;
        for (auto& a : acts)
            for (int i = 0; i < 4; ++i)
            {
                auto p = parser(root({arg("A", 0, 1), arg("B", 0, MANY)}, {opt({"-f"}), append({"-b"})}));
                p.ign_opt = i & 1;
                (i & 2 ? p.root.args[1].acts : p.root.opts[i & 1].acts) = {a};
                act.push_back(p);
                auto r = parser(root({}, {append({"-b"})}, {p.root, cmd("t", {arg("T", 0, 1)})}));
                r.root.cmds[0].name = "sub";
                r.root.multi = true;
                act.push_back(r);
            }
        k.families.push_back(family("callbacks", act, {"v", "-f", "-b", "-b1", "-fb", "sub", "t", "-q"}, q ? 3 : 4));
    }
    k.assumptions = {"Options that keep no value share one (empty) line; whether they do is left open by the documentation and taken as it is.",
                     "Empty lines between the parts of the listing are not compared."};
    return k;
}
