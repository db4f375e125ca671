// Arguments inserted by callbacks.
#include "common.hpp"
using namespace mc;

namespace
{
    std::string key(const Outcome& r)
    {
        std::string s = r.end == Outcome::EXITED ? "exit " + std::to_string(r.exit_code)
                        : r.end == Outcome::THREW ? "exception" : r.failed ? "failure" : text(r.root, true);
        s += "\n";
        auto ev = r.events;
        std::erase_if(ev, [](auto& e) { return e.kind == '.'; });
        return s + text(ev);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P15";
    const bool q = quick(tier);
    CompareOpts o{.what = "insertion"};
    const std::vector<Strs> inserts{{"w"}, {"w", "u"}, {"-x", "n"}, {"-x"}, {"-l"}, {"-s"}, {""}, {"-i"}, {"-e"}, {"-xn", "w"}, {"--zz", "w"}, {"-f", "-fx"}, {"a"}, {"w", "w", "w"}};
    const std::vector<std::vector<ArgSpec>> lists{
        {arg("A", 0, 1), arg("B", 1, 1)}, {arg("A", 0, 2), arg("B", 0, MANY)}, {arg("A", 1, 2), arg("B", 1, 2)}, {}, {arg("A", 0, MANY), arg("B", 2, 2)}};
    enum Where { OPTION, VALUED, FIRST_ARG, LAST_ARG, WIDE_OPTION, WIDE_ARG, STOP_OPTION };
    auto make = [=](size_t list, int where, const Strs& ins, int uses, int variant)
    {
        std::vector<OptSpec> os{opt({"-i"}), append({"-x", "--xx"}), opt({"-f"}), typed({"-l"}, Type::LAST_OPTION), typed({"-s"}, Type::STOP), typed({"-e"}, Type::LAST_ARGUMENT)};
        auto as = lists[list];
        const std::vector<Act> acts{{Act::INSERT, "", ins, uses}};
        ParserSpec p;
        if (where == OPTION)
            os[0].acts = acts;
        else if (where == VALUED)
            os[1].acts = acts;
        else if (where == STOP_OPTION)
            os[4].acts = acts;
        else if (where == FIRST_ARG && !as.empty())
            as.front().acts = acts;
        else if (where == LAST_ARG && !as.empty())
            as.back().acts = acts;
        if (variant == 2) // in sub-commands of a multi-command
        {
            p = parser(root({}, {opt({"-r"})}, {cmd("a", as, os), cmd("b", {arg("P", 0, 1)}, {opt({"-f"})})}));
            p.root.multi = true;
        }
        else
            p = parser(root(as, os));
        p.ign_arg = p.ign_opt = variant == 1;
        if (where == WIDE_OPTION)
        {
            p.opt_cb = true;
            p.opt_acts = acts;
        }
        if (where == WIDE_ARG)
        {
            p.arg_cb = true;
            p.arg_acts = acts;
        }
        number(p);
        return p;
    };
    k.families.push_back({"model", "5 argument lists x 7 callbacks x " + std::to_string(inserts.size()) + " inserted lists, once or twice, strict, lenient or in a multi-command x every line of up to " + std::to_string(q ? 2 : 4) + " tokens",
                          [=](Chooser& c)
                          {
                              const int variant = int(c.pick(3));
                              const auto list = c.pick(5);
                              const int where = int(c.pick(7));
                              const auto& ins = c.of(inserts);
                              auto p = make(list, where, ins, 1 + int(c.pick(2)), variant);
                              Strs line = variant == 2 ? pick_line(c, {"w", "-i", "-fi", "-x", "b", "a"}, q ? 2 : 3) : pick_line(c, {"w", "-i", "-if", "-x", "-s", "-l", "-fx"}, q ? 2 : 3);
                              if (variant == 2)
                                  line.insert(line.begin(), "a");
                              compare(c, p, line, o);
                          }});
    k.families.push_back({"both", "an option's or an argument's own callback and the parser-wide one, either or both inserting: 5 argument lists x 3 callbacks x " + std::to_string(inserts.size()) + " inserted lists x 3 lists of the wide callback, strict, lenient or in a multi-command x every line of up to two tokens",
                          [=](Chooser& c)
                          {
                              static const std::vector<Strs> second{{}, {"u"}, {"-f", "n"}};
                              const int variant = int(c.pick(3));
                              auto p = make(c.pick(5), std::vector<int>{OPTION, VALUED, FIRST_ARG}[c.pick(3)], c.of(inserts), 1, variant);
                              p.opt_cb = p.arg_cb = true;
                              const auto i = c.pick(3);
                              if (i)
                                  p.opt_acts = p.arg_acts = {{Act::INSERT, "", second[i], 1}};
                              number(p);
                              Strs line = variant == 2 ? pick_line(c, {"w", "-i", "-x", "b"}, 2) : pick_line(c, {"w", "-i", "-if", "-x"}, 2);
                              if (variant == 2)
                                  line.insert(line.begin(), "a");
                              compare(c, p, line, o);
                          }});
    k.families.push_back({"longer", "an option that inserts at every place of longer lines: 5 argument lists x " + std::to_string(inserts.size()) + " inserted lists x 0.." + std::to_string(q ? 6 : 8) + " words before and after, joined to a cluster or not, once or twice",
                          [=](Chooser& c)
                          {
                              const auto list = c.pick(5);
                              auto p = make(list, c.flip() ? OPTION : WIDE_OPTION, c.of(inserts), 1 + int(c.pick(2)), int(c.pick(2)));
                              Strs line;
                              const auto a = c.pick(q ? 5 : 7), b = c.pick(q ? 5 : 7);
                              for (uint32_t i = 0; i < a; ++i)
                                  line.push_back("p" + std::to_string(i));
                              line.push_back(c.of(Strs{"-i", "-if", "-fi", "-ffif", "-ffiff"}));
                              for (uint32_t i = 0; i < b; ++i)
                                  line.push_back("q" + std::to_string(i));
                              if (c.flip())
                                  line.push_back("-i");
                              compare(c, p, line, o);
                          }});
    // Real code against real code: inserting equals having typed it.
    const Strs before{"-xv", "--xx=v"}, after{"w", "-f", "-x", "-i", "-l", "b", ""};
    k.families.push_back({"expanded", "the inserting option, alone or in one of " + std::to_string(q ? 8 : 20) + " clusters, after an option or none x " + std::to_string(inserts.size()) + " inserted lists x every tail of up to " + std::to_string(q ? 2 : 3)
                          + " tokens, compared with the line where the list was typed",
                          [=](Chooser& c)
                          {
                              const int variant = int(c.pick(3));
                              const auto list = c.pick(5);
                              const auto& ins = c.of(inserts);
                              auto p1 = make(list, OPTION, ins, 1, variant);
                              auto p2 = make(list, OPTION, {}, 1, variant);
                              (variant == 2 ? p2.root.cmds[0].opts : p2.root.opts)[0].acts.clear();
                              Strs l1, l2;
                              if (variant == 2)
                                  l1.push_back("a");
                              const auto pre = pick_line(c, before, 1);
                              l1.insert(l1.end(), pre.begin(), pre.end());
                              l2 = l1;
                              // the option alone or anywhere in a cluster
                              const auto front = c.of(q ? Strs{"", "ff"} : Strs{"", "f", "ff", "fff"}), rear = c.of(q ? Strs{"", "f", "ff", "xv"} : Strs{"", "f", "ff", "xv", "fx"});
                              l1.push_back("-" + front + "i" + rear);
                              l2.push_back("-" + front + "i");
                              l2.insert(l2.end(), ins.begin(), ins.end());
                              if (!rear.empty())
                                  l2.push_back("-" + rear);
                              const auto post = pick_line(c, q ? Strs{"w", "-x", "-i", "b"} : after, q ? 2 : 3);
                              l1.insert(l1.end(), post.begin(), post.end());
                              l2.insert(l2.end(), post.begin(), post.end());
                              const auto r1 = real_run(p1, l1), r2 = real_run(p2, l2);
                              c.trace();
                              c.step(l2.size());
                              c.state(describe(p1) + show(l1));
                              c.outcome(key(r1).substr(0, 7));
                              c.sample([&] { return show(l1) + " inserting " + show(ins) + " as " + show(l2); });
                              if (key(r1) != key(r2))
                                  c.fail("expanded", describe(p1) + show(l1) + " gives\n" + key(r1) + "but the expanded line\n" + show(l2) + " gives\n" + key(r2));
                          }});
    cross_families(k, q, o, {}, !q);
    return k;
}
