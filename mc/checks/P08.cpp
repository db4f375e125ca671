// Options that end processing take effect exactly where they stand.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P08";
    const bool q = quick(tier);
    CompareOpts o{.what = "stop"};
    auto must = [](OptSpec x)
    {
        x.optional = false;
        return x;
    };
    std::vector<ParserSpec> flat, valued, tree, multi;
    const std::vector<std::vector<ArgSpec>> arg_lists{{}, {arg("A", 0, 2)}, {arg("A"), arg("B", 0, MANY)}, {arg("A", 0, MANY), arg("B", 1, 2)}};
    for (int i = 0; i < 16; ++i)
    {
        std::vector<OptSpec> os{opt({"-f"}), append({"-b"}), typed({"-h"}, Type::HELP), typed({"-s"}, Type::STOP), typed({"-x"}, Type::EXIT),
                                typed({"-e"}, Type::LAST_ARGUMENT), typed({"-l", "--"}, Type::LAST_OPTION)};
        if (i & 4)
            os.push_back(must(opt({"-m"})));
        auto p = parser(root(arg_lists[size_t(i & 3)], os));
        p.ign_opt = p.ign_arg = i & 8;
        p.opt_cb = p.arg_cb = i & 8;
        flat.push_back(p);
    }
    // stop options that take values, have constants or do nothing
    for (auto t : {Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION})
        for (int i = 0; i < 4; ++i)
        {
            auto a = typed({"-s", "--stop"}, t, "V");
            if (i == 1)
                a.op = Op::APPEND;
            if (i == 2)
                a = op({"-s", "--stop"}, Op::NONE);
            if (i == 3)
            {
                a = op({"-s", "--stop"}, Op::CLEAR);
                a.alias = "-b";
            }
            a.type = t;
            valued.push_back(parser(root({arg("A", 0, 1), arg("B", 1, 2)}, {a, append({"-b", "--bb"}), opt({"-f"})})));
        }
    for (int i = 0; i < 16; ++i)
    {
        auto sub = cmd("sub", {arg("S", i & 1 ? 1 : 0, 2)},
                       {append({"-b"}), must(opt({"-q"})), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-l"}, Type::LAST_OPTION), typed({"-s"}, Type::STOP)});
        sub.opts[1].optional = i & 2;
        auto other = cmd("other", {}, {typed({"-e"}, Type::LAST_ARGUMENT), typed({"-l"}, Type::LAST_OPTION), typed({"-x"}, Type::EXIT)}, {cmd("leaf", {arg("L", 0, 1)}, {typed({"-e"}, Type::LAST_ARGUMENT)})});
        if (i & 4)
            other.require = false;
        auto p = parser(root({}, {typed({"-l"}, Type::LAST_OPTION), typed({"-h"}, Type::HELP), typed({"-e"}, Type::LAST_ARGUMENT), must(opt({"-m"}))}, {sub, other}));
        if (i & 8)
        {
            p.root.require = false;
            p.ign_opt = p.ign_arg = true;
        }
        p.root.opts[3].optional = i & 1;
        tree.push_back(p);
        p.root.multi = true;
        multi.push_back(p);
        p.root.multi = false;
        p.root.cmds[1].multi = true;
        multi.push_back(p);
    }
    k.families.push_back(lines_family("program", flat, {"v", "-f", "-b", "-h", "-s", "-x", "-e", "-l", "--", "-m"}, q ? 4 : 5, o));
    k.families.push_back(lines_family("clusters", flat, {"v", "-fsf", "-sf", "-fs", "-fe", "-efb", "-sbx", "-bs", "-fhv", "-x", "-l", "-fx-", "-ssf"}, q ? 3 : 4, o));
    k.families.push_back(lines_family("valued", valued, {"v", "-s", "-sv", "--stop", "--stop=v", "-b", "-f", "-fs", "-fsb"}, q ? 4 : 5, o));
    k.families.push_back(lines_family("sub-commands", tree, {"sub", "other", "leaf", "v", "-b", "-q", "-e", "-l", "-s", "-x", "-h", "-m"}, q ? 4 : 5, o));
    k.families.push_back(lines_family("multi-commands", multi, {"sub", "other", "leaf", "v", "-q", "-e", "-l", "-s", "-m"}, q ? 5 : 6, o));
    for (auto s : {Style::SLASH, Style::DASH})
    {
        std::vector<ParserSpec> v;
        for (auto& p : flat)
            v.push_back(styled(p, s));
        for (auto& p : v)
            p.root.opts[6].flags.pop_back();
        const std::string P = s == Style::SLASH ? "/" : "-", N = s == Style::SLASH ? "-" : "/";
        k.families.push_back(lines_family(s == Style::SLASH ? "slash" : "dash", v,
                                          {"v", P + "f", P + "b", P + "h", P + "s", P + "x", P + "e", P + "l", N + "f", P + "s=1"}, q ? 4 : 5, o));
    }
    cross_families(k, q, o);
    return k;
}
