// Success exactly when everything required is present.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P06";
    const bool q = quick(tier);
    CompareOpts o{.events = false, .errors = false};
    auto must = [](OptSpec x)
    {
        x.optional = false;
        return x;
    };
    std::vector<ParserSpec> flat, tree, multi;
    for (int i = 0; i < 64; ++i)
    {
        auto m = must(opt({"-m", "--mm"}, "M"));
        if (i & 4)
            m.alias = "-n";
        auto n = append({"-n"});
        n.optional = !(i & 1);
        if (i & 2)
            m.initial = "I";
        auto c = op({"-c"}, Op::CLEAR);
        c.alias = "-m";
        std::vector<ArgSpec> args;
        if (i & 8)
            args.push_back(arg("A", i & 32 ? 2 : 1, i & 32 ? 2 : 1));
        if (i & 16)
            args.push_back(arg("B", 0, 1));
        flat.push_back(parser(root(args, {m, n, c, typed({"-s"}, Type::STOP), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-h"}, Type::HELP),
                                          typed({"-x"}, Type::EXIT), typed({"-l"}, Type::LAST_OPTION)})));
    }
    for (int i = 0; i < 16; ++i)
    {
        auto sub = cmd("sub", {arg("S", i & 1 ? 1 : 0, 1)}, {must(opt({"-q"}, "Q")), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-s"}, Type::STOP)});
        auto deep = cmd("deep", {}, {must(opt({"-d"})), typed({"-l"}, Type::LAST_OPTION)}, {sub, cmd("leaf")});
        if (i & 2)
            deep.require = false;
        auto p = parser(root({}, {must(opt({"-m"}, "M")), typed({"-x"}, Type::EXIT), typed({"-l"}, Type::LAST_OPTION)}, {sub, deep}));
        if (i & 4)
            p.root.require = false;
        if (i & 8)
            p.root.opts[0].optional = true;
        tree.push_back(p);
        p.root.multi = true;
        multi.push_back(p);
        p.root.multi = false;
        p.root.cmds[1].multi = true;
        multi.push_back(p);
    }
    k.families.push_back(lines_family("program", flat, {"v", "-m", "-n", "-c", "-s", "-e", "-x", "-h", "-l"}, q ? 4 : 5, o));
    k.families.push_back(lines_family("sub-commands", tree, {"sub", "deep", "leaf", "-m", "-q", "-d", "v", "-e", "-x", "-s", "-l"}, q ? 5 : 6, o));
    k.families.push_back(lines_family("multi-commands", multi, {"sub", "deep", "leaf", "-m", "-q", "-d", "v", "-e", "-l"}, q ? 5 : 6, o));
    for (auto s : {Style::SLASH, Style::DASH})
    {
        std::vector<ParserSpec> v;
        for (auto& p : multi)
            v.push_back(styled(p, s));
        const std::string P = s == Style::SLASH ? "/" : "-";
        k.families.push_back(lines_family(s == Style::SLASH ? "slash" : "dash", v, {"sub", "deep", P + "m", P + "q", P + "d", "v", P + "e", P + "s", P + "l"}, q ? 4 : 5, o));
    }
    cross_families(k, q, o);
    return k;
}
