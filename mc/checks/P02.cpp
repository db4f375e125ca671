// The values under an option's name replay the history of its occurrences.
#include "common.hpp"
using namespace mc;

namespace
{
    // Options that all write to one shared value, and one that does not.
    std::vector<OptSpec> shared(bool ini_assign, bool ini_append)
    {
        auto share = [](OptSpec o)
        {
            o.alias = "shared";
            return o;
        };
        auto a = share(opt({"-a", "--as"}, "A"));
        if (ini_assign)
            a.initial = "ini1";
        auto b = share(append({"-b", "--ap"}, "B"));
        if (ini_append)
            b.initial = "ini2";
        auto k = share(opt({"-k"}));
        k.constant = "K";
        auto m = share(op({"-m"}, Op::APPEND));
        m.constant = "M";
        return {a, b, k, m, share(op({"-c"}, Op::CLEAR)), op({"-n"}, Op::NONE), share(opt({"-f"}))};
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P02";
    const bool q = quick(tier);
    auto own = [](bool ini)
    {
        std::vector<OptSpec> r{opt({"-a"}, "A"), append({"-b"}), opt({"-k"}), op({"-m"}, Op::APPEND), opt({"-f"})};
        r[2].constant = "K";
        r[3].constant = "M";
        if (ini)
            for (auto& o : r)
                o.initial = "i" + o.flags[0].substr(1);
        auto c = op({"-c"}, Op::CLEAR);
        c.alias = "-b";
        auto d = op({"-d"}, Op::CLEAR);
        d.alias = "-a";
        d.initial = ini ? "id" : "";
        r.push_back(c);
        r.push_back(d);
        r.push_back(op({"-n"}, Op::NONE));
        return r;
    };
    const std::vector<Strs> ops{{"-f"}, {"-a", "1"}, {"-b", "2"}, {"-k"}, {"-m"}, {"-c"}, {"-n"}, {"-bx"}, {"-a", ""}, {"-d"}};
    const std::vector<Strs> ops2{{"-f"}, {"-a1"}, {"-b2"}, {"-k"}, {"-m"}, {"-c"}, {"-n"}, {"--ap=x"}, {"--as="}, {"-b", ""}};
    struct Setup
    {
        std::string name;
        std::vector<ParserSpec> specs;
        std::vector<Strs> ops;
        Strs before;
    };
    std::vector<Setup> setups;
    auto finish = [](std::vector<ParserSpec> v)
    {
        for (auto& p : v)
            number(p);
        return v;
    };
    std::vector<ParserSpec> s1, s2, s3, s4;
    for (int i = 0; i < 4; ++i)
    {
        s1.push_back(parser(root({}, shared(i & 1, i & 2))));
        s3.push_back(parser(root({}, {opt({"-r"}, "R")}, {cmd("sub", {}, shared(i & 1, i & 2))})));
    }
    for (int i = 0; i < 2; ++i)
    {
        s2.push_back(parser(root({}, own(i))));
        auto mid = cmd("mid", {}, own(i), {cmd("sub", {}, own(i))});
        s4.push_back(parser(root({}, own(i), {mid})));
    }
    setups.push_back({"shared", finish(s1), ops2, {}});
    setups.push_back({"separate", finish(s2), ops, {}});
    setups.push_back({"shared-in-subcommand", finish(s3), ops2, {"-r", "z", "sub"}});
    setups.push_back({"separate-in-nested-subcommands", finish(s4), ops, {"-b", "9", "mid", "-a", "8", "sub"}});
    for (auto& s : setups)
    {
        const size_t depth = q ? 5 : 6;
        k.families.push_back({s.name, std::to_string(s.specs.size()) + " definitions x every sequence of up to " + std::to_string(depth)
                              + " occurrences of 10 kinds (assign, append, constant, flag, clear, no-operation; joined, separate and empty values)",
                              [=](Chooser& c)
                              {
                                  const auto& p = c.of(s.specs);
                                  auto line = s.before;
                                  const auto n = c.pick(uint32_t(depth + 1));
                                  for (uint32_t i = 0; i < n; ++i)
                                  {
                                      auto& o = c.of(s.ops);
                                      line.insert(line.end(), o.begin(), o.end());
                                  }
                                  compare(c, p, line);
                              }});
    }
    // Values of every byte, given in every way.
    {
        auto p = parser(root({}, {opt({"-a", "--as"}, "A"), append({"-b", "--ap="}, "B")}));
        number(p);
        std::vector<ParserSpec> ps{p, styled(p, Style::SLASH), styled(p, Style::DASH)};
        ps[1].root.opts[1].flags[1] = "/ap=";
        k.families.push_back({"value-bytes", "3 styles x every pair of bytes as value, joined and separate, assigned and appended",
                              [=](Chooser& c)
                              {
                                  const auto& p = c.of(ps);
                                  const auto& o = c.of(p.root.opts);
                                  std::string v{char(c.pick(256))};
                                  if (c.flip())
                                      v += char(c.pick(256));
                                  auto f = o.flags[c.pick(2)];
                                  const bool joined = c.flip();
                                  Strs line;
                                  if (f.size() == 2)
                                  {
                                      if (joined && p.style == Style::STANDARD)
                                          line = {f + v};
                                      else
                                          line = {f, v};
                                  }
                                  else
                                  {
                                      if (f.back() == '=')
                                          f.pop_back();
                                      line = joined ? Strs{f + "=" + v} : Strs{f, v};
                                  }
                                  compare(c, p, line);
                              }});
    }
    many_family(k, q, {});
    cross_families(k, q, {});
    return k;
}
