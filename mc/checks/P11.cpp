// Sub-command lines are parsed in the scope of the command they follow.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P11";
    const bool q = quick(tier);
    CompareOpts o{.what = "scope"};
    // The same flags, names and command names are used at every level, with
    // different meanings.
    std::vector<ParserSpec> specs;
    for (int i = 0; i < 64; ++i)
    {
        auto leaf = cmd("a", {arg("v", 0, 2)}, {append({"-x"}), opt({"-y"})});
        auto mid = cmd("b", {}, {opt({"-x"}), append({"-y", "--yy"}), opt({"--only"})}, {leaf, cmd("b", {arg("w", i & 1 ? 1 : 0, 1)}, {opt({"-z"}, "Z")})});
        auto flat = cmd("a", {arg("v", i & 2 ? 2 : 0, 3)}, {op({"-x"}, Op::APPEND), op({"-z"}, Op::CLEAR)});
        flat.opts[0].constant = "const";
        flat.opts[1].alias = "v";
        auto p = parser(root({}, {append({"-x", "--xx"}), opt({"-y"}, "Y")}, {flat, mid, cmd("c")}));
        if (i & 4)
            p.root.require = false;
        if (i & 8)
            p.root.cmds[1].require = false;
        p.ign_opt = i & 16;
        p.ign_arg = i & 16;
        p.gen_help = i & 32;
        p.opt_cb = p.arg_cb = i & 32;
        specs.push_back(p);
    }
    k.families.push_back(lines_family("same-names", specs, {"a", "b", "c", "-x", "-y", "-z", "v", "--xx", "--only", "-xb", ""}, q ? 4 : 5, o));
    std::vector<ParserSpec> some;
    for (size_t i : {0, 13, 50})
        some.push_back(specs[i]);
    k.families.push_back(lines_family("longer", some, {"a", "b", "c", "-x", "-y", "v", "-z"}, q ? 5 : 7, o));
    // names that look like options or equal option values; deep chains
    std::vector<ParserSpec> odd;
    for (auto s : styles())
        for (int i = 0; i < 8; ++i)
        {
            auto d4 = cmd("d", {arg("e", 0, MANY)}, {append({"-x"})});
            auto d3 = cmd("c", {}, {append({"-x"})}, {d4, cmd("/q"), cmd("-q")});
            auto d2 = cmd("b", {}, {append({"-x"})}, {d3});
            auto d1 = cmd("a", {}, {append({"-x"})}, {d2, cmd("-", {arg("g", 0, 1)})});
            auto p = parser(root({}, {append({"-x"}), typed({"-l"}, Type::LAST_OPTION)}, {d1, cmd("/a", {arg("h", 0, 1)}), cmd("-a", {arg("h", 0, 1)})}));
            if (i & 1)
                p.root.cmds[0].cmds[0].require = p.root.cmds[0].require = false;
            p.ign_opt = i & 2;
            p.abbrev = i & 4;
            odd.push_back(styled(p, s));
        }
    k.families.push_back(lines_family("odd-names", odd, {"a", "b", "c", "d", "-", "-x", "/x", "-a", "/a", "-l", "/l", "-q"}, q ? 4 : 5, o));
    k.families.push_back({"deep", "chains of up to 8 nested commands of one name x 0.." + std::to_string(q ? 9 : 11) + " names with options put at every pair of places",
                          [=](Chooser& c)
                          {
                              const auto depth = 1 + c.pick(8);
                              CmdSpec x = cmd("n", {arg("z", 0, 1)}, {append({"-o"})});
                              for (uint32_t i = 1; i < depth; ++i)
                              {
                                  auto y = cmd("n", {}, {append({"-o"})}, {x});
                                  if (i % 2)
                                      y.require = false;
                                  x = y;
                              }
                              auto p = parser(root({}, {append({"-o"})}, {x}));
                              number(p);
                              const auto n = c.pick(q ? 10 : 12);
                              const auto a = c.pick(n + 1), b = c.pick(n + 1);
                              Strs line;
                              for (uint32_t i = 0; i <= n; ++i)
                              {
                                  if (i == a)
                                      line.insert(line.end(), {"-o", "n"});
                                  if (i == b)
                                      line.push_back("-on");
                                  if (i < n)
                                      line.push_back("n");
                              }
                              compare(c, p, line, o);
                          }});
    many_family(k, q, o);
    cross_families(k, q, o);
    return k;
}
