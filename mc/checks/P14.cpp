// Callbacks.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P14";
    const bool q = quick(tier);
    CompareOpts o{.what = "callback"};
    const std::vector<Act> acts{
        {Act::ASSIGN, "-x", {"N"}, 9}, {Act::ASSIGN, "A", {"a-new-value-that-is-not-short"}, 1}, {Act::APPEND, "-x", {"P"}, 9}, {Act::APPEND, "A", {""}, 1},
        {Act::CLEAR, "-x", {}, 9}, {Act::CLEAR, "A", {}, 9}, {Act::VIEW_ASSIGN, "", {"VN"}, 9}, {Act::VIEW_APPEND, "", {"VP"}, 1},
        {Act::VIEW_CLEAR, "", {}, 9}, {Act::ERROR, "", {"client text"}, 1}, {Act::ERROR_ARG, "", {"client text"}, 1}, {Act::ASSIGN, "nope", {"1"}, 9},
        {Act::CLEAR, "-f", {}, 9}, {Act::APPEND, "-c", {"C"}, 9}};
    auto base = [](int scope, std::vector<int> where, const std::vector<Act>& a, const std::vector<Act>& wide_opt, const std::vector<Act>& wide_arg, bool wide)
    {
        (void)where;
        auto c = op({"-c"}, Op::CLEAR);
        c.alias = "-x";
        auto f = opt({"-f", "--flag"});
        auto n = op({"-n"}, Op::NONE, "N");
        std::vector<OptSpec> os{append({"-x", "--xx"}), f, c, n};
        std::vector<ArgSpec> as{arg("A", 0, 1), arg("B", 0, MANY)};
        for (int w : where)
        {
            if (w < 4)
                os[size_t(w)].acts = a;
            else
                as[size_t(w - 4)].acts = a;
        }
        auto p = scope ? parser(root({}, {append({"-x"})}, {cmd("sub", as, os)})) : parser(root(as, os));
        p.opt_cb = p.arg_cb = wide;
        p.opt_acts = wide_opt;
        p.arg_acts = wide_arg;
        return p;
    };
    const Strs alphabet{"-x1", "-x", "-f", "-c", "-n", "w", "-fxa-long-joined-value-on-the-heap"};
    k.families.push_back({"own", "one or two of " + std::to_string(acts.size()) + " actions in the callback of each of 6 definitions, with or without parser-wide callbacks, in the program or a sub-command, auto-exit on or off x every line of up to "
                          + std::to_string(q ? 2 : 3) + " tokens of " + show(alphabet),
                          [=](Chooser& c)
                          {
                              const int scope = int(c.pick(2));
                              const int where = int(c.pick(6));
                              std::vector<Act> a{c.of(acts)};
                              if (c.flip())
                                  a.push_back(c.of(acts));
                              const bool wide = a.size() == 1 && c.flip();
                              auto p = base(scope, {where}, a, {}, {}, wide);
                              p.auto_exit = a.size() == 1 && a[0].kind >= Act::ERROR && a[0].kind <= Act::ERROR_ARG && c.flip();
                              number(p);
                              Strs line = pick_line(c, alphabet, a.size() == 1 && !q ? 4 : q ? 2 : 3);
                              if (scope)
                                  line.insert(line.begin(), "sub");
                              compare(c, p, line, o);
                          }});
    k.families.push_back({"parser-wide", "one action in the option callback and one in the argument callback of the parser and optionally one in the own callbacks x every line of up to " + std::to_string(q ? 3 : 4) + " tokens",
                          [=](Chooser& c)
                          {
                              const int scope = int(c.pick(2));
                              const auto& x = c.of(acts);
                              const auto& y = c.of(acts);
                              auto p = base(scope, c.flip() ? std::vector<int>{0, 1, 4} : std::vector<int>{}, {acts[size_t(c.pick(2) ? 8 : 3)]}, {x}, {y}, true);
                              number(p);
                              Strs line = pick_line(c, {"-x1", "-f", "-c", "w", "-n"}, q ? 2 : 3);
                              if (scope)
                                  line.insert(line.begin(), "sub");
                              compare(c, p, line, o);
                          }});
    // Which callbacks run at all: with and without own and parser-wide ones,
    // across commands, stop options, failures and generated options.
    std::vector<ParserSpec> which;
    for (int i = 0; i < 64; ++i)
    {
        auto p = base(0, {}, {}, {}, {}, false);
        p.opt_cb = i & 1;
        p.arg_cb = i & 2;
        for (auto& x : p.root.opts)
            x.callback = i & 4;
        for (auto& x : p.root.args)
            x.callback = i & 8;
        p.root.opts.push_back(typed({"-s"}, Type::STOP));
        p.root.opts.push_back(typed({"-e"}, i & 16 ? Type::LAST_ARGUMENT : Type::EXIT));
        p.gen_help = i & 32;
        p.version = i & 16 ? "2" : "";
        if (i & 32)
        {
            auto sub = p.root;
            sub.name = "sub";
            auto r = p;
            r.root = root({}, {append({"-x"}), typed({"-s"}, Type::HELP)}, {sub, cmd("t", {arg("T", 0, 1)}, {opt({"-f"})})});
            r.root.multi = true;
            p = r;
        }
        which.push_back(p);
    }
    k.families.push_back(lines_family("which", which, {"-x", "-f", "w", "-s", "-e", "sub", "t", "-h", "--version", "-zz", "-fxs"}, q ? 3 : 4, o));
    // a failing command line: callbacks until the failure only
    many_family(k, q, o);
    cross_families(k, q, o, {}, !q);
    return k;
}
