// Placement of options among positionals (metamorphic, on the real code).
#include "common.hpp"
using namespace mc;

namespace
{
    void drop(CmdOut& c)
    {
        std::erase_if(c.unprocessed, [](auto& s) { return s == "--zz" || s == "-zz" || s == "/zz"; });
        for (auto& s : c.subs)
            drop(s);
    }

    std::string key(const Outcome& r)
    {
        if (r.end != Outcome::RETURNED)
            return "ends otherwise: " + r.what;
        if (r.failed)
            return "failure";
        // An ignored option is itself left unprocessed: it moves with its place.
        auto root = r.root;
        drop(root);
        return text(root, true);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P05";
    const bool q = quick(tier);
    struct Setup
    {
        ParserSpec p;
        Strs before;
        std::string must; // the mandatory option's flag
        std::vector<std::pair<Strs, int>> what; // options and the value they concern
    };
    const std::vector<std::pair<Strs, int>> standard{{{"-f"}, 0}, {{"-o", "x"}, 1}, {{"-ox"}, 1}, {{"--opt=x"}, 1}, {{"--opt", "-f"}, 1}, {{"-k"}, 2}, {{"--nv=q"}, 3}, {{"-c"}, 4}, {{"-fk"}, 5}, {{"-m", "1"}, 6}, {{"--zz"}, 7}, {{"-o", "v1"}, 1}, {{"-m", ""}, 6}};
    const std::vector<std::pair<Strs, int>> loose{{{"-F"}, 0}, {{"-O", "x"}, 1}, {{"--op", "x"}, 1}, {{"--OP=x"}, 1}, {{"--Opt", "-f"}, 1}, {{"-FK"}, 5}, {{"--n=q"}, 3}, {{"-M", "1"}, 6}, {{"-O", "v1"}, 1}, {{"-c"}, 4}};
    auto prefixed = [](const std::string& P)
    {
        return std::vector<std::pair<Strs, int>>{{{P + "f"}, 0}, {{P + "o", "x"}, 1}, {{P + "opt", P + "f"}, 1}, {{P + "opt=x"}, 1}, {{P + "k"}, 2}, {{P + "nv=q"}, 3}, {{P + "c"}, 4}, {{P + "m", "1"}, 6}, {{P + "zz"}, 7}, {{P + "o", "v1"}, 1}, {{P + "m="}, 6}};
    };
    std::vector<Setup> setups;
    const std::vector<std::vector<std::pair<unsigned, unsigned>>> lists{
        {{1, 1}, {0, 1}}, {{0, 1}, {1, 1}}, {{0, 2}, {1, 2}}, {{0, MANY}, {1, 1}}, {{0, 1}, {0, 1}}, {{1, 1}, {0, MANY}, {2, 2}}, {}, {{2, 2}}};
    for (auto& l : lists)
        for (int v = 0; v < 15; ++v)
        {
            std::vector<ArgSpec> a;
            for (size_t i = 0; i < l.size(); ++i)
                a.push_back(arg(std::string(1, char('A' + i)), l[i].first, l[i].second));
            auto kc = op({"-k"}, Op::APPEND);
            kc.constant = "K";
            auto nv = op({"--nv"}, Op::NONE, "N");
            auto m = opt({"-m"}, "M");
            m.optional = false;
            std::vector<OptSpec> o{opt({"-f"}), append({"-o", "--opt"}), kc, nv, op({"-c"}, Op::CLEAR), m};
            Setup s;
            if (v % 6 < 3)
                s.p = parser(root(a, o));
            else
            {
                s.p = parser(root({}, {opt({"-r"})}, {cmd("sub", a, o), cmd("v1", {arg("z", 0, 1)})}));
                s.before = {"-r", "sub"};
                s.p.root.multi = v % 6 == 5;
            }
            s.must = "-m";
            s.what = standard;
            if (v >= 6 && v < 12)
            {
                s.p.ci = s.p.abbrev = true;
                s.what = loose;
            }
            else if (v >= 12)
            {
                const std::string P = v == 14 ? "-" : "/";
                s.what = prefixed(P);
                s.must = P + "m";
                for (auto& b : s.before)
                    if (b == "-r")
                        b = P + "r";
            }
            s.p.ign_opt = v % 3 == 1;
            s.p.ign_arg = v % 3 != 0;
            if (v >= 12)
                s.p = styled(s.p, v == 14 ? Style::DASH : Style::SLASH);
            number(s.p);
            setups.push_back(s);
        }
    auto no_multi = [](const Setup& s) { return !s.p.root.multi; };
    const size_t npos = q ? 5 : 6;
    k.families.push_back({"one-moved", std::to_string(setups.size()) + " definitions x 0.." + std::to_string(npos) + " positional values x one option of 13 kinds (others in other case, abbreviated or in slash and dash style) at every pair of places, with or without -m first",
                          [=](Chooser& c)
                          {
                              const auto& s = c.of(setups);
                              const auto n = c.pick(uint32_t(npos + 1));
                              const auto& w = c.of(s.what).first;
                              const auto b = c.pick(n + 1);
                              const bool m = c.flip();
                              auto make = [&](uint32_t at)
                              {
                                  Strs line = s.before;
                                  if (m)
                                      line.insert(line.end(), {s.must, "0"});
                                  for (uint32_t i = 0; i <= n; ++i)
                                  {
                                      if (i == at)
                                          line.insert(line.end(), w.begin(), w.end());
                                      if (i < n)
                                          line.push_back(i == 0 && no_multi(s) ? "v1" : i == 1 ? "" : "w" + std::to_string(i));
                                  }
                                  return line;
                              };
                              const auto l1 = make(0), l2 = make(b);
                              const auto r1 = real_run(s.p, l1), r2 = real_run(s.p, l2);
                              c.trace();
                              c.step(l2.size());
                              c.state(describe(s.p) + show(l2));
                              c.outcome(key(r1).substr(0, 30));
                              c.sample([&] { return show(l1) + " and " + show(l2) + " -> " + key(r1); });
                              if (key(r1) != key(r2))
                                  c.fail("moved", describe(s.p) + show(l1) + " -> " + key(r1) + "\n" + show(l2) + " -> " + key(r2));
                          }});
    // Two options that share no value, in both orders and every place.
    k.families.push_back({"two-placed", "the same definitions x 0.." + std::to_string(q ? 3 : 4) + " values x two options at every pair of places in both orders",
                          [=](Chooser& c)
                          {
                              const auto& s = c.of(setups);
                              const auto n = c.pick(q ? 4 : 5);
                              const auto [w1, g1] = c.of(s.what);
                              const auto [w2, g2] = c.of(s.what);
                              if (g1 == g2 || (g1 == 5 && (g2 == 0 || g2 == 2)) || (g2 == 5 && (g1 == 0 || g1 == 2)))
                                  return;
                              const auto a = c.pick(n + 1), b = c.pick(n + 1);
                              auto make = [&, &w1 = w1, &w2 = w2](uint32_t x, uint32_t y, bool swap)
                              {
                                  Strs line = s.before;
                                  for (uint32_t i = 0; i <= n; ++i)
                                  {
                                      for (int k2 = 0; k2 < 2; ++k2)
                                      {
                                          const bool first = (k2 == 0) != swap;
                                          if (i == (first ? x : y))
                                              line.insert(line.end(), (first ? w1 : w2).begin(), (first ? w1 : w2).end());
                                      }
                                      if (i < n)
                                          line.push_back("w" + std::to_string(i));
                                  }
                                  return line;
                              };
                              const auto l1 = make(0, 0, false), l2 = make(a, b, true);
                              const auto r1 = real_run(s.p, l1), r2 = real_run(s.p, l2);
                              c.trace();
                              c.step(l2.size());
                              c.state(describe(s.p) + show(l2));
                              c.outcome(key(r1).substr(0, 30));
                              if (key(r1) != key(r2))
                                  c.fail("placed", describe(s.p) + show(l1) + " -> " + key(r1) + "\n" + show(l2) + " -> " + key(r2));
                          }});
    return k;
}
