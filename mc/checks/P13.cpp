// Names linked by aliases share one value.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P13";
    const bool q = quick(tier);
    CompareOpts o{.what = "alias"};
    const Strs pool = q ? Strs{"", "-x", "--yy", "-z", "A", "k", "B"} : Strs{"", "-x", "-y", "--yy", "-z", "A", "k", "B"};
    const Strs arg_pool{"", "-x", "-z", "B", "k", "--yy"};
    k.families.push_back({"graphs", "every order of three options (-x, -y/--yy, -z; -z assigns, appends or clears), each linked to one of " + show(pool)
                          + " x 0..2 arguments linked to one of " + show(arg_pool) + " x every line of up to " + std::to_string(q ? 2 : 3) + " of -x1 -y2 --yy=3 -z word",
                          [=](Chooser& c)
                          {
                              std::vector<int> order{0, 1, 2};
                              const auto perm = c.pick(6);
                              for (uint32_t i = 0; i < perm; ++i)
                                  std::next_permutation(order.begin(), order.end());
                              const auto kind = c.pick(3);
                              std::vector<OptSpec> os{append({"-x"}), opt({"-y", "--yy"}, "Y"), op({"-z"}, kind == 0 ? Op::ASSIGN : kind == 1 ? Op::APPEND : Op::CLEAR)};
                              if (kind == 1)
                                  os[2].constant = "zz";
                              for (auto& x : os)
                                  x.alias = c.of(pool);
                              std::vector<OptSpec> sorted;
                              for (int i : order)
                                  sorted.push_back(os[size_t(i)]);
                              std::vector<ArgSpec> as;
                              const auto n = c.pick(q && kind != 1 ? 2 : 3); // two arguments with one kind of -z only
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  as.push_back(arg(std::string(1, char('A' + i)), 0, i + 1));
                                  as.back().alias = c.of(arg_pool);
                              }
                              auto p = parser(root(as, sorted));
                              number(p);
                              compare(c, p, pick_line(c, {"-x1", "-y2", "--yy=3", "-z", "w"}, q ? 2 : 3), o);
                          }});
    k.families.push_back({"chains", "a chain of " + std::string(q ? "5" : "6") + " options, each linked to one of its neighbours, in every order of declaration x either neighbour x one broken link or none x the option that is set",
                          [=](Chooser& c)
                          {
                              const uint32_t n = q ? 5 : 6;
                              std::vector<uint32_t> left;
                              for (uint32_t i = 0; i < n; ++i)
                                  left.push_back(i);
                              auto name = [](uint32_t i) { return std::string("-") + char('a' + i); };
                              const auto broken = c.pick(n); // link broken - 1 -> broken is left out
                              std::vector<Strs> links(n);
                              std::vector<std::string> alias(n);
                              // link i joins i and i + 1 and is declared by one of them
                              std::vector<bool> used(n);
                              for (uint32_t i = 0; i + 1 < n; ++i)
                              {
                                  if (broken && i == broken - 1)
                                      continue;
                                  const bool by_first = used[i] ? false : used[i + 1] ? true : c.flip();
                                  const auto who = by_first ? i : i + 1;
                                  if (used[who])
                                      continue;
                                  used[who] = true;
                                  alias[who] = name(by_first ? i + 1 : i);
                              }
                              std::vector<OptSpec> os;
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto at = c.pick(uint32_t(left.size()));
                                  const auto x = left[at];
                                  left.erase(left.begin() + at);
                                  os.push_back(append({name(x)}));
                                  os.back().alias = alias[x];
                              }
                              auto p = parser(root({}, os));
                              number(p);
                              compare(c, p, {name(c.pick(n)) + "v", name(c.pick(n)) + "w"}, o);
                          }});
    // The same in sub-commands: linked within a command only.
    std::vector<ParserSpec> tree;
    for (int i = 0; i < 64; ++i)
    {
        auto x = append({"-x"}), y = append({"-y"}), z = opt({"-z"}, "Z");
        x.alias = i & 1 ? "-y" : "k";
        y.alias = i & 2 ? "k" : "";
        z.alias = i & 4 ? "-x" : "-y";
        z.initial = i & 8 ? "init" : "";
        auto a = arg("k", 0, 2);
        auto sub = cmd("sub", {a}, i & 16 ? std::vector<OptSpec>{x, y, z} : std::vector<OptSpec>{z, y, x});
        auto p = parser(root({}, i & 32 ? std::vector<OptSpec>{y, x, z} : std::vector<OptSpec>{x, z}, {sub, cmd("t", {arg("-x", 0, 1)}, {append({"-y"})})}));
        p.root.multi = true;
        tree.push_back(p);
    }
    k.families.push_back(lines_family("sub-commands", tree, {"sub", "t", "-x1", "-y2", "-z3", "v"}, q ? 4 : 5, o));
    many_family(k, q, o);
    cross_families(k, q, o);
    return k;
}
