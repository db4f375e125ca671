// The status of every result in the tree.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P22";
    const bool q = quick(tier);
    CompareOpts o{.values = false, .events = false, .unprocessed = false, .failed_codes = true, .what = "status"};
    auto must = [](OptSpec x)
    {
        x.optional = false;
        return x;
    };
    auto flat = zoo_flat();
    auto tree = zoo_tree();
    const std::vector<Route> both{Route::PARSE, Route::ITERATE};
    k.families.push_back(lines_family("program", flat.specs, flat.alphabet, q ? 3 : 4, o, both));
    k.families.push_back(lines_family("sub-commands", tree.specs, tree.alphabet, q ? 4 : 5, o, both));
    std::vector<ParserSpec> deep;
    for (int i = 0; i < 32; ++i)
    {
        auto leaf = cmd("c", {arg("C", i & 1 ? 1 : 0, 1)}, {typed({"-s"}, Type::STOP), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-h"}, Type::HELP)});
        if (i & 2)
            leaf.opts.push_back(must(opt({"-m"})));
        auto mid = cmd("b", {}, {typed({"-s"}, Type::EXIT), typed({"-e"}, Type::LAST_ARGUMENT)}, {leaf, cmd("d")});
        mid.multi = i & 4;
        auto p = parser(root({}, {typed({"-s"}, Type::STOP)}, {cmd("a", {}, {opt({"-f"})}, {mid}), cmd("d", {arg("D", 0, MANY)}, {typed({"-e"}, Type::LAST_ARGUMENT)})}));
        p.root.multi = i & 8;
        if (i & 16)
            p.root.require = p.root.cmds[0].require = p.root.cmds[0].cmds[0].require = false;
        deep.push_back(p);
    }
    k.families.push_back(lines_family("deep", deep, {"a", "b", "c", "d", "v", "-s", "-e", "-m", "-h", "-f"}, q ? 5 : 6, o));
    // After each step of an iteration, until the end: no result is final
    // before the parse is, and the status never changes afterwards.
    k.families.push_back({"callback errors", "an error raised by a callback at any of up to 3 tokens of a multi-command line: the exception leaves no result marked as a success",
                          [=](Chooser& c)
                          {
                              auto p = deep[c.pick(uint32_t(deep.size()))];
                              p.root.cmds[1].args[0].acts = {{Act::ERROR, "", {"no"}, 1}};
                              p.root.cmds[0].opts[0].acts = {{Act::ERROR, "", {"no"}, 1}};
                              number(p);
                              compare(c, p, pick_line(c, {"a", "b", "c", "d", "v", "-f", "-e"}, 4), o);
                          }});
    // Stop options: asked of every result, in every status.
    std::vector<ParserSpec> stops;
    for (auto t : {Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION})
        for (int i = 0; i < 4; ++i)
        {
            auto a = typed({"-s"}, t, i & 1 ? "V" : "");
            auto b = typed({"-t"}, Type::STOP);
            auto x = cmd("x", {arg("X", 0, 1)}, {a, b});
            auto p = parser(root({}, {b, a}, {x, cmd("y", {}, {a})}));
            p.root.multi = i & 2;
            p.version = "1";
            p.gen_help = true;
            stops.push_back(p);
        }
    k.families.push_back(lines_family("stop option", stops, {"x", "y", "-s", "-t", "v", "--version", "-h"}, q ? 4 : 5, o, both));
    cross_families(k, q, o);
    return k;
}
