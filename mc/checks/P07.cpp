// Equivalent spellings (metamorphic, on the real code).
#include "common.hpp"
using namespace mc;

namespace
{
    std::string key(const Outcome& r)
    {
        if (r.end == Outcome::EXITED)
            return "exit " + std::to_string(r.exit_code) + "\n" + text(r.events);
        if (r.end == Outcome::THREW)
            return "exception";
        return (r.failed ? "failure\n" : text(r.root, true) + "\n") + text(r.events);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P07";
    const bool q = quick(tier);
    // An abstract occurrence: an option, its value if it takes one, and its
    // spellings; spelling 0 is the plainest.
    struct Occ
    {
        std::vector<Strs> spellings;
        char letter = 0;        // may be clustered with others
        std::string joined;     // value that may end a cluster
        bool has_value = false;
        bool ends = false;      // what follows is not processed
    };
    struct Setup
    {
        std::string name;
        std::vector<ParserSpec> specs;
        std::vector<Occ> occs;
    };
    std::vector<Setup> setups;
    {
        Setup s;
        s.name = "standard";
        for (int v = 0; v < 4; ++v)
        {
            auto kc = op({"-k", "--kk"}, Op::APPEND);
            kc.constant = "K";
            std::vector<OptSpec> o{opt({"-a", "--aa"}), append({"-b", "--bb"}), opt({"-v", "--val="}, "V"), kc, op({"-c", "--cc"}, Op::CLEAR),
                                   op({"-n", "--nn"}, Op::NONE), typed({"-s", "--ss"}, Type::STOP), append({"--long"}, "L")};
            o[4].alias = "-b";
            std::vector<ArgSpec> a{arg("A", 0, 2), arg("B", 0, MANY)};
            ParserSpec p;
            if (v & 1)
                p = parser(root({}, {}, {cmd("sub", a, o)}));
            else
                p = parser(root(a, o));
            if (v & 2)
                p.opt_cb = p.arg_cb = true;
            p.ign_opt = v & 1;
            number(p);
            s.specs.push_back(p);
        }
        s.occs.push_back({{{"-a"}, {"--aa"}}, 'a', "", false, false});
        for (const std::string x : {"x", "=", "=x", "a", "-a", "", "b=c"})
        {
            Occ b{{{"-b", x}, {"--bb", x}, {"--bb=" + x}}, 'b', x, true, false};
            Occ v{{{"-v", x}, {"--val=" + x}}, 'v', x, true, false};
            Occ l{{{"--long", x}, {"--long=" + x}}, 0, "", true, false};
            if (!x.empty())
            {
                b.spellings.push_back({"-b" + x});
                v.spellings.push_back({"-v" + x});
            }
            s.occs.push_back(b);
            if (x == "=" || x == "")
                s.occs.push_back(v);
            if (x == "-a")
                s.occs.push_back(l);
        }
        s.occs.push_back({{{"-k"}, {"--kk"}}, 'k', "", false, false});
        s.occs.push_back({{{"-c"}, {"--cc"}}, 'c', "", false, false});
        s.occs.push_back({{{"-n"}, {"--nn"}}, 'n', "", false, false});
        s.occs.push_back({{{"-s"}, {"--ss"}}, 's', "", false, true});
        s.occs.push_back({{{"word"}}, 0, "", false, false});
        setups.push_back(s);
    }
    for (auto st : {Style::SLASH, Style::DASH})
    {
        const std::string P = st == Style::SLASH ? "/" : "-";
        Setup s;
        s.name = st == Style::SLASH ? "slash" : "dash";
        std::vector<OptSpec> o{opt({P + "a", P + "aa"}), append({P + "b", P + "bb"}), opt({P + "long", P + "lo="}, "V"), op({P + "c"}, Op::CLEAR)};
        o[3].alias = P + "b";
        auto p = parser(root({arg("A", 0, 2), arg("B", 0, MANY)}, o));
        p.style = st;
        auto p2 = parser(root({}, {}, {cmd("sub", {arg("A", 0, 2), arg("B", 0, MANY)}, o)}));
        p2.style = st;
        p2.opt_cb = true;
        number(p);
        number(p2);
        s.specs = {p, p2};
        s.occs.push_back({{{P + "a"}, {P + "aa"}}, 0, "", false, false});
        for (const std::string x : {"x", "=", "=x", "/a", "-a", "", "b=c"})
        {
            s.occs.push_back({{{P + "b", x}, {P + "bb", x}, {P + "bb=" + x}, {P + "b=" + x}}, 0, "", true, false});
            s.occs.push_back({{{P + "long", x}, {P + "long=" + x}, {P + "lo=" + x}}, 0, "", true, false});
        }
        s.occs.push_back({{{P + "c"}}, 0, "", false, false});
        s.occs.push_back({{{"word"}}, 0, "", false, false});
        setups.push_back(s);
    }
    for (auto& s : setups)
    {
        const size_t depth = s.name == "standard" ? (q ? 4 : 5) : (q ? 3 : 4);
        k.families.push_back({s.name, std::to_string(s.specs.size()) + " definitions x every sequence of up to " + std::to_string(depth) + " occurrences of "
                              + std::to_string(s.occs.size()) + " kinds x every single change of spelling (short, long, joined, '=', clustered runs)",
                              [=](Chooser& c)
                              {
                                  const auto& p = c.of(s.specs);
                                  const auto n = 1 + c.pick(uint32_t(depth));
                                  std::vector<const Occ*> seq;
                                  for (uint32_t i = 0; i < n; ++i)
                                      seq.push_back(&c.of(s.occs));
                                  // which occurrence is spelled differently
                                  const auto at = c.pick(n);
                                  const auto& o = *seq[at];
                                  const bool may_cluster = o.letter && at + 1 < n && !o.has_value && seq[at + 1]->letter;
                                  const auto alt = c.pick(uint32_t(o.spellings.size() + (may_cluster ? 1 : 0)));
                                  Strs l1, l2;
                                  if (!p.root.cmds.empty())
                                      l1 = l2 = {"sub"};
                                  for (auto x : seq)
                                      l1.insert(l1.end(), x->spellings[0].begin(), x->spellings[0].end());
                                  for (uint32_t i = 0; i < n; ++i)
                                  {
                                      if (i == at && alt == o.spellings.size())
                                      {
                                          // the longest cluster from here on
                                          std::string t = "-";
                                          while (i < n && seq[i]->letter && !seq[i]->has_value && !seq[i]->ends)
                                              t += seq[i++]->letter;
                                          Strs tail;
                                          if (i < n && seq[i]->letter)
                                          {
                                              t += seq[i]->letter;
                                              if (seq[i]->has_value && !seq[i]->joined.empty())
                                                  t += seq[i]->joined;
                                              else if (seq[i]->has_value)
                                                  tail.push_back("");
                                          }
                                          else
                                              --i;
                                          l2.push_back(t);
                                          l2.insert(l2.end(), tail.begin(), tail.end());
                                          continue;
                                      }
                                      const auto& sp = seq[i]->spellings[i == at ? alt : 0];
                                      l2.insert(l2.end(), sp.begin(), sp.end());
                                  }
                                  // tokens that are never processed keep their spelling
                                  for (uint32_t i = 0; i < at; ++i)
                                      if (seq[i]->ends)
                                          return;
                                  if (l1 == l2)
                                      return;
                                  const auto r1 = real_run(p, l1), r2 = real_run(p, l2);
                                  c.trace();
                                  c.step(l2.size());
                                  c.state(describe(p) + show(l2));
                                  c.outcome(key(r1).substr(0, 60));
                                  c.sample([&] { return show(l1) + " and " + show(l2) + " -> " + text(r1.root, true); });
                                  if (r1.end != Outcome::RETURNED || r1.failed)
                                      c.fail("valid", describe(p) + show(l1) + " -> " + key(r1) + r1.custom);
                                  if (key(r1) != key(r2))
                                      c.fail("spelling", describe(p) + show(l1) + " -> " + key(r1) + "\n" + show(l2) + " -> " + key(r2));
                              }});
    }
    return k;
}
