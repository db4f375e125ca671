// Filtering argv.
#include "common.hpp"
using namespace mc;

namespace
{
    // Filters the line after parsing it by the given route and compares with
    // what the model says was left.
    void filter(Chooser& c, const ParserSpec& p, const Strs& line, uint32_t route)
    {
        const auto m = model_run(p, line);
        c.step(m.steps_taken);
        if (m.undefined || m.end != Outcome::RETURNED)
            return;
        // The kept tokens, by position.
        std::set<int> left(m.left.begin(), m.left.end());
        left.erase(-1);
        Strs all;
        std::function<void(const CmdOut&)> gather = [&](const CmdOut& r)
        {
            all.insert(all.end(), r.unprocessed.begin(), r.unprocessed.end());
            for (auto& s : r.subs)
                gather(s);
        };
        gather(m.root);
        // An unprocessed text that is not a token of its own is
        // indistinguishable from a processed token that reads the same.
        for (size_t i = 0; i < line.size(); ++i)
            if (!left.count(int(i)))
            {
                auto n = std::count(all.begin(), all.end(), line[i]);
                for (auto j : left)
                    n -= line[size_t(j)] == line[i];
                if (n > 0)
                {
                    c.outcome("left open: unprocessed text that equals a processed token");
                    return;
                }
            }
        Strs want;
        for (auto i : left)
            want.push_back(line[size_t(i)]);
        // Is each text on the line either wholly processed or wholly left?
        bool mixed = false;
        for (size_t i = 0; i < line.size(); ++i)
            for (size_t j = 0; j < line.size(); ++j)
                mixed = mixed || (line[i] == line[j] && left.count(int(i)) != left.count(int(j)));
        // exactly sized heap copies, so that reads and writes beyond are seen
        const size_t argc0 = line.size() + 1;
        std::vector<std::unique_ptr<char[]>> store;
        std::unique_ptr<char*[]> argv(new char*[argc0]);
        auto put = [&](size_t i, const std::string& s)
        {
            store.emplace_back(new char[s.size() + 1]);
            memcpy(store.back().get(), s.c_str(), s.size() + 1);
            argv[i] = store.back().get();
        };
        put(0, "program");
        for (size_t i = 0; i < line.size(); ++i)
            put(i + 1, line[i]);
        std::vector<char*> original(argv.get(), argv.get() + argc0);
        std::ostringstream stream;
        auto parser = make_parser(p);
        parser->stream(&stream);
        std::string what = "route " + std::to_string(route) + ", command line " + show(line) + "\n" + describe(p);
        std::optional<argos::ParsedArguments> r;
        {
            Capture quiet;
            RunLog log;
            g_log = &log;
            try
            {
                if (route == 0)
                    r = parser->parse(int(argc0), argv.get());
                else
                {
                    auto it = parser->make_iterator(int(argc0), argv.get());
                    r = it.parsed_arguments();
                    std::unique_ptr<argos::IArgumentView> view;
                    std::string_view value;
                    while (it.next(view, value))
                        ;
                }
            }
            catch (argos::ArgosException&)
            {
                r.reset();
            }
            g_log = nullptr;
        }
        if (!r)
            return;
        parser.reset();
        int argc = int(argc0);
        char** v = argv.get();
        r->filter_parsed_arguments(argc, v);
        c.trace();
        what += "left " + show(all) + "\n";
        if (argc < 1 || size_t(argc) > argc0)
            c.fail("filter:count", what + "argc is " + std::to_string(argc));
        if (v != argv.get())
            c.fail("filter:vector", what + "argv was replaced");
        if (v[0] != original[0])
            c.fail("filter:program", what + "the program name is gone");
        Strs got;
        size_t at = 1;
        for (int i = 1; i < argc; ++i)
        {
            got.push_back(v[i]);
            while (at < argc0 && original[at] != v[i])
                ++at;
            if (at == argc0)
                c.fail("filter:pointers", what + "element " + std::to_string(i) + " is not one of the original pointers, or out of order");
            ++at;
        }
        for (size_t i = 0; i < line.size(); ++i)
            if (original[i + 1] != store[i + 1].get() || line[i] != store[i + 1].get())
                c.fail("filter:texts", what + "a text was changed");
        const bool extra = std::count(m.left.begin(), m.left.end(), -1);
        if (!mixed || (p.root.cmds.empty() && !extra))
            expect_same(c, "filter:result", "filtered arguments", show(want), show(got), what);
        else
        {
            // Equal tokens of which only some are left: any of them may be
            // kept, as many as are left.
            std::sort(want.begin(), want.end());
            auto sorted = got;
            std::sort(sorted.begin(), sorted.end());
            expect_same(c, "filter:result", "filtered arguments in any order", show(want), show(sorted), what);
        }
        // a second time: nothing changes
        const int argc2 = argc;
        r->filter_parsed_arguments(argc, v);
        if (argc != argc2)
            c.fail("filter:again", what + "filtering again removed " + std::to_string(argc2 - argc));
        c.outcome(std::to_string(got.size()) + " of " + std::to_string(line.size()) + " kept");
        c.state(show(line) + describe(p));
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P20";
    const bool q = quick(tier);
    auto family = [&](std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most)
    {
        for (auto& p : specs)
            number(p);
        k.families.push_back({name, std::to_string(specs.size()) + " definitions x parse or iterate x every line of up to " + std::to_string(most) + " tokens of " + show(alphabet),
                              [=](Chooser& c)
                              {
                                  const auto& p = c.of(specs);
                                  const auto route = c.pick(2);
                                  filter(c, p, pick_line(c, alphabet, most), route);
                              }});
    };
    std::vector<ParserSpec> flat, tree, insert;
    for (int i = 0; i < 12; ++i)
    {
        auto p = parser(root(i % 3 == 0 ? std::vector<ArgSpec>{} : i % 3 == 1 ? std::vector<ArgSpec>{arg("A", 0, 1)} : std::vector<ArgSpec>{arg("A"), arg("B", 0, 2)},
                             {opt({"-f"}), append({"-b", "--bb"}), typed({"-s"}, Type::STOP), typed({"-l"}, Type::LAST_OPTION), typed({"-e"}, Type::LAST_ARGUMENT)}));
        p.ign_opt = i < 6;
        p.ign_arg = (i / 3) % 2 == 0;
        flat.push_back(p);
    }
    for (int i = 0; i < 8; ++i)
    {
        auto p = parser(root({}, {append({"-b"})}, {cmd("sub", {arg("S", i & 2 ? 1 : 0, 1)}, {append({"-b"}), typed({"-e"}, Type::LAST_ARGUMENT), typed({"-s"}, Type::STOP)}), cmd("t", {}, {opt({"-f"})}, {cmd("u", {arg("U", 0, 1)})})}));
        p.root.multi = i & 1;
        if (i & 4)
            p.root.require = p.root.cmds[1].require = false;
        p.ign_opt = p.ign_arg = true;
        tree.push_back(p);
    }
    const std::vector<Strs> ins{{"w"}, {"-z"}, {"v", "-z"}, {"-s", "w"}, {"-s"}};
    for (auto& x : ins)
        for (int i = 0; i < 2; ++i)
        {
            auto p = flat[size_t(i * 4)];
            p.ign_opt = p.ign_arg = true;
            p.root.opts[0].acts = {{Act::INSERT, "", x, 1}};
            insert.push_back(p);
        }
    family("program", flat, {"v", "w", "", "-f", "-b", "-z", "--zz=1", "-s", "-l", "-e", "-bv"}, q ? 4 : 5);
    family("clusters", flat, {"v", "-fsf", "-f", "-sb", "-b", "-fbv", "-fe", "-sv"}, q ? 4 : 5);
    family("sub-commands", tree, {"sub", "t", "u", "v", "w", "-b", "-z", "-e", "-s"}, q ? 4 : 5);
    family("inserted", insert, {"v", "w", "-f", "-z", "-b", "-s", "-ff"}, q ? 4 : 5);
    k.families.push_back({"edge", "argc of 0 and 1, and results of every status",
                          [=](Chooser& c)
                          {
                              auto p = flat[c.pick(uint32_t(flat.size()))];
                              number(p);
                              const auto parser = make_parser(p);
                              std::ostringstream stream;
                              parser->stream(&stream);
                              auto r = parser->parse(std::vector<std::string_view>(c.pick(4), "v"));
                              int argc = int(c.pick(2));
                              std::unique_ptr<char*[]> argv(argc ? new char*[1] : nullptr);
                              char name[] = "x";
                              if (argc)
                                  argv[0] = name;
                              const int before = argc;
                              char** v = argv.get();
                              r.filter_parsed_arguments(argc, v);
                              c.trace();
                              if (argc != before || v != argv.get() || (argc && argv[0] != name))
                                  c.fail("filter:edge", "argc " + std::to_string(before) + " became " + std::to_string(argc));
                          }});
    cross_families(k, q, {}, [](Chooser& c, const ParserSpec& p, const Strs& line) { filter(c, p, line, 0); }, !q);
    return k;
}
