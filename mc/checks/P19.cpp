// Ignored undefined options and arguments.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P19";
    const bool q = quick(tier);
    CompareOpts o{.iterate = true, .errors = true, .what = "ignored"};
    const std::vector<std::vector<ArgSpec>> arg_lists{{}, {arg("A", 0, 1)}, {arg("A"), arg("B", 0, 2)}, {arg("A", 0, MANY)}};
    auto specs = [&](Style s)
    {
        std::vector<ParserSpec> v;
        for (int i = 0; i < 32; ++i)
        {
            auto p = parser(root(arg_lists[size_t(i / 8)], {opt({"-f", "--flag"}), append({"-b", "--bb"}), typed({"-s"}, Type::STOP), typed({"-l"}, Type::LAST_OPTION)}));
            p.ign_opt = i & 1;
            p.ign_arg = i & 2;
            p.abbrev = i & 4;
            p.opt_cb = p.arg_cb = i & 4;
            v.push_back(styled(p, s));
        }
        return v;
    };
    k.families.push_back(lines_family("standard", specs(Style::STANDARD), {"v", "-f", "-b", "-b1", "-s", "-l", "-z", "--zz", "--zz=1", "--f", "", "--z=", "-"}, q ? 3 : 4, o, {Route::ITERATE}));
    for (auto s : {Style::SLASH, Style::DASH})
    {
        const std::string P = s == Style::SLASH ? "/" : "-", N = s == Style::SLASH ? "-" : "/";
        k.families.push_back(lines_family(s == Style::SLASH ? "slash" : "dash", specs(s), {"v", P + "f", P + "b", P + "b=1", P + "s", P + "l", P + "z", P + "zz=1", P + "fl", N + "z", P, ""}, q ? 3 : 4, o, {Route::ITERATE}));
    }
    // In every command of a tree: undefined there, though defined elsewhere.
    std::vector<ParserSpec> trees;
    for (int i = 0; i < 16; ++i)
    {
        auto p = parser(root({}, {append({"-r"})}, {cmd("sub", {arg("S", i & 8 ? 1 : 0, 1)}, {append({"-u"})}), cmd("other", {}, {opt({"-o"})}, {cmd("leaf", {}, {opt({"-e"})})})}));
        p.ign_opt = i & 1;
        p.ign_arg = i & 2;
        p.root.multi = i & 4;
        if (i & 8)
            p.root.require = p.root.cmds[1].require = false;
        trees.push_back(p);
    }
    k.families.push_back(lines_family("sub-commands", trees, {"sub", "other", "leaf", "v", "-r", "-u", "-o", "--zz", "-e"}, q ? 4 : 5, o, {Route::ITERATE}));
    // Without the model: taking the ignored tokens out of the line gives the
    // same values, callbacks and status, and they are the unprocessed list.
    const Strs known{"v", "-f", "-b", "-b1", "--bb=2", "--flag"}, unknown{"-z", "--zz", "--zz=1", "--flagg", "--", "--=", "-\xff"};
    k.families.push_back({"transparent", "3 argument lists x every line of up to " + std::to_string(q ? 4 : 5) + " known tokens (" + show(known) + ") with up to " + std::to_string(q ? 2 : 3) + " undefined options (" + show(unknown) + ") at any places that are not the value of an option: compared with the line without them",
                          [=](Chooser& c)
                          {
                              const auto args = std::vector<std::vector<ArgSpec>>{{arg("A", 0, 2)}, {arg("A"), arg("B", 0, MANY)}, {}}[c.pick(3)];
                              auto p = parser(root(args, {opt({"-f", "--flag"}), append({"-b", "--bb"})}));
                              p.ign_opt = true;
                              p.opt_cb = p.arg_cb = true;
                              number(p);
                              const auto line = pick_line(c, known, q ? 3 : 4);
                              Strs mixed, gone;
                              size_t left = q ? 2 : 3;
                              for (size_t i = 0; i <= line.size(); ++i)
                              {
                                  const bool value = i && line[i - 1] == "-b" && (i < 2 || line[i - 2] != "-b" || (i >= 3 && line[i - 3] == "-b"));
                                  while (!value && left && c.flip())
                                  {
                                      mixed.push_back(c.of(unknown));
                                      gone.push_back(mixed.back());
                                      --left;
                                  }
                                  if (i < line.size())
                                      mixed.push_back(line[i]);
                              }
                              // a "-b" at the end would swallow the next token
                              for (size_t i = 0; i + 1 < mixed.size(); ++i)
                                  if (mixed[i] == "-b" && std::count(unknown.begin(), unknown.end(), mixed[i + 1]))
                                      return;
                              const auto a = real_run(p, line), b = real_run(p, mixed);
                              c.trace();
                              c.state(show(mixed) + std::to_string(args.size()));
                              const auto context = describe(p) + "line " + show(line) + "\nwith undefined options " + show(mixed) + "\n";
                              if (a.failed != b.failed)
                                  c.fail("ignored:status", context + "the ignored options change the status");
                              if (a.failed)
                                  return;
                              auto ra = a.root, rb = b.root;
                              if (rb.unprocessed != gone)
                                  c.fail("ignored:unprocessed", context + "unprocessed " + show(rb.unprocessed));
                              ra.unprocessed = rb.unprocessed = {};
                              expect_same(c, "ignored:values", "values", text(ra, true), text(rb, true), context);
                              expect_same(c, "ignored:callbacks", "callbacks", text(a.events), text(b.events), context);
                          }});
    cross_families(k, q, o);
    return k;
}
