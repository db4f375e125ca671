// Distribution of positional values.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P04";
    const bool q = quick(tier);
    const std::vector<std::pair<unsigned, unsigned>> counts = q
        ? std::vector<std::pair<unsigned, unsigned>>{{1, 1}, {0, 1}, {0, 2}, {1, 2}, {2, 2}, {1, MANY}, {0, MANY}, {2, 3}}
        : std::vector<std::pair<unsigned, unsigned>>{{1, 1}, {0, 1}, {0, 2}, {1, 2}, {2, 2}, {1, MANY}, {0, MANY}, {2, 3}, {1, 3}, {2, 4}, {3, 3}};
    const std::vector<OptSpec> opts{opt({"-f"}), append({"-o", "--opt"}), op({"-n"}, Op::NONE, "N"), op({"-c"}, Op::CLEAR),
                                    typed({"-l"}, Type::LAST_OPTION), append({"-K"}, "")};
    auto make = [=](const std::vector<std::pair<unsigned, unsigned>>& v, int where)
    {
        std::vector<ArgSpec> a;
        for (size_t i = 0; i < v.size(); ++i)
            a.push_back(arg(std::string(1, char('A' + i)), v[i].first, v[i].second));
        auto o = opts;
        o[5].constant = "K";
        ParserSpec p;
        if (where == 0)
            p = parser(root(a, o));
        else
            p = parser(root({}, {opt({"-r"})}, {cmd("sub", a, o)}));
        number(p);
        return p;
    };
    auto brute = [](Chooser& c, const ParserSpec& p, const std::vector<std::pair<unsigned, unsigned>>& v, const Strs& line, const Strs& pos)
    {
        // straight from the statement
        auto r = real_run(p, line);
        uint64_t lo = 0, hi = 0;
        for (auto& x : v)
        {
            lo += x.first;
            hi += x.second;
        }
        const bool ok = pos.size() >= lo && pos.size() <= hi;
        if (ok != (r.end == Outcome::RETURNED && !r.failed))
            c.fail("success", "command line " + show(line) + "\n" + describe(p) + (ok ? "fails" : "succeeds"));
        if (!ok)
            return;
        size_t at = 0;
        uint64_t later = lo;
        const auto& out = r.root.subs.empty() ? r.root : r.root.subs[0];
        for (size_t i = 0; i < v.size(); ++i)
        {
            later -= v[i].first;
            const auto n = std::min<uint64_t>(v[i].second, pos.size() - at - later);
            Strs want(pos.begin() + long(at), pos.begin() + long(at + n)), got;
            at += n;
            for (auto& [nm, vs] : out.values)
                if (nm == std::string(1, char('A' + i)))
                    for (auto& x : vs)
                        got.push_back(x.text);
            if (want != got)
                c.fail("distribution", "command line " + show(line) + "\n" + describe(p) + "argument " + std::string(1, char('A' + i))
                       + " received " + show(got) + ", expected " + show(want));
        }
    };
    const size_t nargs = q ? 3 : 4, npos = q ? 6 : 7;
    k.families.push_back({"counts", "every list of up to " + std::to_string(nargs) + " arguments with counts of " + std::to_string(counts.size())
                          + " kinds, in the program or a sub-command, with 0.." + std::to_string(npos)
                          + " values and one option occurrence of 8 kinds (or none) at every place, also in other case and abbreviated where the settings allow it",
                          [=](Chooser& c)
                          {
                              const auto n = c.pick(uint32_t(nargs + 1));
                              std::vector<std::pair<unsigned, unsigned>> v;
                              for (uint32_t i = 0; i < n; ++i)
                                  v.push_back(c.of(counts));
                              const int where = int(c.pick(2));
                              auto p = make(v, where);
                              const auto m = c.pick(uint32_t(npos + 1));
                              static const std::vector<Strs> exact{{}, {"-f"}, {"-o", "x"}, {"-ox"}, {"--opt=x"}, {"-n"}, {"-c"}, {"-fo", "x"}, {"-K"}},
                                  loose{{"-O", "x"}, {"--OPT", "x"}, {"--o", "x"}, {"--Op=x"}, {"-FO", "x"}};
                              p.ci = p.abbrev = c.flip();
                              const auto& what = p.ci ? loose : exact;
                              const auto w = c.pick(uint32_t(what.size()));
                              const auto at = w || p.ci ? c.pick(m + 1) : 0;
                              Strs line, pos;
                              if (where)
                                  line.push_back("sub");
                              for (uint32_t i = 0; i < m; ++i)
                              {
                                  if (i == at)
                                      line.insert(line.end(), what[w].begin(), what[w].end());
                                  pos.push_back("v" + std::to_string(i));
                                  line.push_back(pos.back());
                              }
                              if (at == m)
                                  line.insert(line.end(), what[w].begin(), what[w].end());
                              c.step(m + 1);
                              c.trace();
                              c.state(describe(p) + show(line));
                              c.sample([&] { return describe(p) + show(line); });
                              c.outcome(std::to_string(n) + "/" + std::to_string(m));
                              brute(c, p, v, line, pos);
                          }});
    // Numbers of values around what small integers can count.
    k.families.push_back({"many-values", "seven lists of arguments, in the program or a sub-command, with 0, 1 or 2 values more or fewer than " + std::string(q ? "126, 254 and 300" : "126, 254, 300, 1022 and 4094") + ", an option before, between or after them",
                          [=](Chooser& c)
                          {
                              static const std::vector<std::vector<std::pair<unsigned, unsigned>>> many{
                                  {{0, MANY}, {1, 1}}, {{0, 300}, {0, MANY}, {1, 1}}, {{1, MANY}, {2, 2}, {0, 1}}, {{0, 255}, {1, 300}}, {{256, 256}, {0, MANY}}, {{0, 1}, {256, MANY}}, {{0, 128}, {0, 128}, {1, 1}}};
                              const auto v = c.of(many);
                              const int where = int(c.pick(2));
                              const auto p = make(v, where);
                              const std::vector<unsigned> bases = q ? std::vector<unsigned>{126, 254, 300} : std::vector<unsigned>{126, 254, 300, 1022, 4094};
                              const auto m = c.of(bases) + c.pick(5) - 2;
                              const auto at = c.pick(3) * (m / 2);
                              Strs line, pos;
                              if (where)
                                  line.push_back("sub");
                              for (uint32_t i = 0; i <= m; ++i)
                              {
                                  if (i == at)
                                      line.insert(line.end(), {"-o", "x"});
                                  if (i < m)
                                  {
                                      pos.push_back("v" + std::to_string(i));
                                      line.push_back(pos.back());
                                  }
                              }
                              c.step(m + 1);
                              c.trace();
                              c.state(describe(p) + std::to_string(m) + "/" + std::to_string(at));
                              brute(c, p, v, line, pos);
                          }});
    // Several options, ignored options, and what ends processing.
    std::vector<ParserSpec> specs;
    const std::vector<std::vector<std::pair<unsigned, unsigned>>> lists{
        {{0, 1}, {1, 1}}, {{0, 2}, {1, 2}}, {{1, 2}, {0, 1}, {1, 1}}, {{0, MANY}, {1, 1}}, {{0, 1}, {0, 1}}, {{1, 1}, {0, MANY}, {2, 2}}, {{1, 1}}, {}};
    for (auto& l : lists)
        for (int i = 0; i < 4; ++i)
        {
            auto p = make(l, 0);
            p.root.opts.push_back(typed({"-s"}, Type::STOP));
            p.root.opts.push_back(typed({"-e"}, Type::LAST_ARGUMENT));
            p.root.opts.push_back(typed({"-x"}, Type::EXIT));
            p.root.opts.push_back(typed({"-h"}, Type::HELP));
            p.root.opts.push_back(op({"--na="}, Op::NONE, "X"));
            p.ign_opt = i & 1;
            p.ign_arg = i & 2;
            number(p);
            specs.push_back(p);
        }
    for (int part = 0; part < 2; ++part)
    {
        Strs alphabet = part == 0 ? Strs{"v", "w", "-o", "-f", "--zz", "-l", "-s", "", "-n", "-q"}
                                  : Strs{"v", "w", "-e", "-x", "-h", "--opt=u", "--na=u", "-c", "-l", "-K"};
        k.families.push_back(lines_family("mixed" + std::to_string(part), specs, alphabet, q ? 4 : 5, {}));
    }
    for (auto s : {Style::SLASH, Style::DASH})
    {
        std::vector<ParserSpec> v;
        for (size_t i = 0; i < specs.size(); ++i)
            v.push_back(styled(specs[i], s));
        const std::string P = s == Style::SLASH ? "/" : "-";
        k.families.push_back(lines_family(s == Style::SLASH ? "slash" : "dash", v,
                                          {"v", "w", P + "o", P + "f", P + "zz", P + "l", P + "opt=u", P + "na=u", P}, q ? 4 : 5));
    }
    many_family(k, q, {});
    cross_families(k, q, {});
    return k;
}
