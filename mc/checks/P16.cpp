// Iterating agrees with parsing in one go.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P16";
    const bool q = quick(tier);
    CompareOpts o{.iterate = true, .what = "iteration"};
    auto family = [&](std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most)
    {
        for (auto& p : specs)
            number(p);
        k.families.push_back({name, std::to_string(specs.size()) + " definitions x auto-exit on or off x both iterator entry points x every line of up to " + std::to_string(most) + " tokens of " + show(alphabet) + ": the steps against the model, the end also against parse()",
                              [=](Chooser& c)
                              {
                                  auto p = c.of(specs);
                                  p.auto_exit = c.flip();
                                  const auto route = c.flip() ? Route::ITERATE_CONST : Route::ITERATE;
                                  const auto line = pick_line(c, alphabet, most);
                                  const auto m = compare(c, p, line, o, route);
                                  // also where the model leaves the outcome open
                                  const auto a = real_run(p, line, Route::PARSE), b = real_run(p, line, route);
                                  expect_same(c, "iteration:parse", "iteration and parse() differ", ending(a), ending(b), "command line " + show(line) + "\n" + describe(p));
                              }});
    };
    auto flat = zoo_flat();
    auto tree = zoo_tree();
    family("options", flat.specs, flat.alphabet, q ? 2 : 3);
    family("sub-commands", tree.specs, tree.alphabet, q ? 3 : 4);
    family("deep", {tree.specs[8], tree.specs[15], tree.specs[13]}, {"sub", "other", "leaf", "v", "-b", "-e", "-f"}, q ? 4 : 5);
    for (auto s : {Style::SLASH, Style::DASH})
    {
        auto z = zoo_flat(s);
        family(s == Style::SLASH ? "slash" : "dash", z.specs, z.alphabet, q ? 2 : 3);
    }
    // Callbacks that insert, change or fail while the iterator is running.
    const std::vector<Act> acts{{Act::INSERT, "", {"-f"}, 2}, {Act::INSERT, "", {"w", "-bz"}, 1}, {Act::INSERT, "", {""}, 1}, {Act::ASSIGN, "-b", {"N"}, 9}, {Act::CLEAR, "-b", {}, 9}, {Act::VIEW_APPEND, "", {"P"}, 9}, {Act::ERROR, "", {"no"}, 1}};
    std::vector<ParserSpec> act;
    for (auto& a : acts)
        for (int i = 0; i < 4; ++i)
        {
            auto p = parser(root({arg("A", 0, 1), arg("B", 0, MANY)}, {opt({"-f"}), append({"-b"})}));
            p.ign_opt = i & 1;
            (i & 2 ? p.root.args[1].acts : p.root.opts[i & 1].acts) = {a};
            act.push_back(p);
            auto r = parser(root({}, {append({"-b"})}, {p.root, cmd("t", {arg("T", 0, 1)})}));
            r.root.cmds[0].name = "sub";
            r.root.multi = true;
            act.push_back(r);
        }
    family("callbacks", act, {"v", "-f", "-b", "-b1", "-fb", "sub", "t"}, q ? 3 : 4);
    cross_families(k, q, o, [o](Chooser& c, const ParserSpec& p, const Strs& line)
                   {
                       compare(c, p, line, o, Route::ITERATE);
                       const auto a = real_run(p, line, Route::PARSE), b = real_run(p, line, Route::ITERATE);
                       expect_same(c, "iteration:parse", "iteration and parse() differ", ending(a), ending(b), "command line " + show(line) + "\n" + describe(p));
                   }, !q);
    return k;
}
