// A multi-command line is the sequence of its sub-command invocations.
#include "common.hpp"
using namespace mc;

namespace
{
    std::string values_of(const CmdOut& c)
    {
        return text(c, true);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P12";
    const bool q = quick(tier);
    CompareOpts o{.what = "multi"};
    const std::vector<std::pair<unsigned, unsigned>> counts{{0, 0}, {0, 1}, {1, 1}, {1, 2}, {2, 2}, {0, MANY}, {1, MANY}, {2, 3}};
    auto args = [](std::pair<unsigned, unsigned> n) -> std::vector<ArgSpec>
    {
        if (!n.second)
            return {};
        return {arg("P", n.first, n.second)};
    };
    std::vector<ParserSpec> pairs;
    for (auto& x : counts)
        for (auto& y : counts)
            for (int i = 0; i < 2; ++i)
            {
                auto a = cmd("a", args(x), {append({"-x"}), typed({"-e"}, Type::LAST_ARGUMENT)});
                auto b = cmd("b", args(y), {opt({"-x"}), typed({"-e"}, Type::LAST_ARGUMENT)});
                auto p = parser(root({}, {append({"-r"})}, {a, b}));
                p.root.multi = true;
                if (i)
                {
                    p.ign_arg = p.ign_opt = true;
                    p.root.require = false;
                }
                pairs.push_back(p);
            }
    k.families.push_back(lines_family("pairs", pairs, {"a", "b", "v", "-x", "-e"}, q ? 5 : 6, o));
    // distribution over several arguments, initial values, mandatory options, nesting
    std::vector<ParserSpec> rich, nested;
    for (int i = 0; i < 16; ++i)
    {
        auto a = cmd("a", {arg("P", 0, 2), arg("Q", 1, 1)}, {append({"-x"}), opt({"-m"}), typed({"-e"}, Type::LAST_ARGUMENT)});
        a.opts[0].initial = "I";
        a.opts[1].optional = i & 1;
        auto b = cmd("b", {arg("P", i & 2, 2), arg("Q", 0, MANY)}, {opt({"-l"}), typed({"-l2"}, Type::NORMAL)});
        b.opts.pop_back();
        b.opts[0].type = Type::LAST_OPTION;
        auto p = parser(root({}, {append({"-r"})}, {a, b, cmd("c")}));
        p.root.multi = true;
        p.ci = i & 4;
        p.opt_cb = p.arg_cb = i & 8;
        rich.push_back(p);
        auto n = cmd("n", {}, {append({"-y"}), typed({"-e"}, Type::LAST_ARGUMENT)}, {cmd("a", {arg("P", i & 1, 2)}, {append({"-x"})}), cmd("k", {arg("R", 0, 1)}, {typed({"-e"}, Type::LAST_ARGUMENT)})});
        n.multi = i & 2;
        if (i & 4)
            n.require = false;
        auto r = parser(root({}, {append({"-r"})}, {n, cmd("a", {arg("P", 0, 1)}, {append({"-x"})}), cmd("c")}));
        r.root.multi = !(i & 2) || (i & 8);
        nested.push_back(r);
    }
    k.families.push_back(lines_family("several-arguments", rich, {"a", "b", "c", "A", "v", "-x", "-m", "-e", "-l"}, q ? 5 : 6, o));
    k.families.push_back(lines_family("nested", nested, {"n", "a", "k", "c", "v", "-x", "-y", "-e"}, q ? 6 : 7, o));
    // Each invocation has the values it would have if parsed alone.
    struct Inv
    {
        Strs tokens; // complete in itself
        bool open;   // would take a following name as a value?
    };
    const std::vector<Inv> invs{{{"a", "1"}}, {{"a", "1", "2", "-x", "o"}}, {{"a", "-x", "b", "a", "-e"}}, {{"b"}}, {{"b", "-x", "-x"}}, {{"b", "w", "-e"}},
                                {{"c", "a", "b"}}, {{"c", "c", "c", "-k"}}, {{"d", "e", "1"}}, {{"d", "-x", "e", "e", "2"}}, {{"d", "e", "-x", "1", "2"}}};
    auto p = parser(root({}, {append({"-r"})}, {cmd("a", {arg("P", 1, 3)}, {append({"-x"}), typed({"-e"}, Type::LAST_ARGUMENT)}),
                                               cmd("b", {arg("P", 0, MANY)}, {opt({"-x"}), typed({"-e"}, Type::LAST_ARGUMENT)}),
                                               cmd("c", {arg("A", 1, 1), arg("B", 1, 1)}, {op({"-k"}, Op::APPEND)}),
                                               cmd("d", {}, {append({"-x"})}, {cmd("e", {arg("N")}, {opt({"-x"}, "X")})})}));
    p.root.cmds[2].opts[0].constant = "K";
    p.root.cmds[0].opts[0].initial = "start";
    p.root.multi = true;
    number(p);
    k.families.push_back({"composed", "every sequence of up to " + std::to_string(q ? 4 : 5) + " of " + std::to_string(invs.size()) + " complete invocations, compared with the invocations parsed alone",
                          [=](Chooser& c)
                          {
                              const auto n = 1 + c.pick(q ? 4 : 5);
                              Strs line;
                              std::string want;
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto& v = c.of(invs);
                                  line.insert(line.end(), v.tokens.begin(), v.tokens.end());
                                  const auto alone = real_run(p, v.tokens);
                                  if (alone.end != Outcome::RETURNED || alone.failed || alone.root.subs.size() != 1)
                                      c.fail("alone", describe(p) + show(v.tokens) + " fails: " + alone.custom);
                                  want += values_of(alone.root.subs[0]) + "\n";
                              }
                              const auto r = real_run(p, line);
                              std::string got;
                              for (auto& s : r.root.subs)
                                  got += values_of(s) + "\n";
                              c.trace();
                              c.step(n);
                              c.state(show(line));
                              c.outcome(std::to_string(r.root.subs.size()));
                              c.sample([&] { return show(line); });
                              if (r.failed || r.end != Outcome::RETURNED || got != want)
                                  c.fail("composed", describe(p) + show(line) + " gives\n" + got + r.custom + "alone:\n" + want);
                          }});
    many_family(k, q, o);
    cross_families(k, q, o);
    return k;
}
