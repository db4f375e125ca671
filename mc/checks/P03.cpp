// Conservation of tokens.
#include "common.hpp"
using namespace mc;

namespace
{
    // Independent of the model: walks the steps of an iteration over a line
    // without clusters and accounts for every token.
    void account(Chooser& c, const ParserSpec& p, const Strs& line)
    {
        auto r = real_run(p, line, Route::ITERATE);
        if (r.end != Outcome::RETURNED || r.failed)
            return;
        auto bad = [&](const std::string& why)
        {
            std::string st;
            for (auto& s : r.steps)
                st += std::string(1, s.kind) + std::to_string(s.id) + "=" + show(s.value) + " ";
            c.fail("account", "command line " + show(line) + "\n" + describe(p) + why + "\nsteps: " + st + "\nresult: " + text(r.root, true));
        };
        std::map<int, const OptSpec*> opts;
        std::function<void(const CmdSpec&)> collect = [&](const CmdSpec& x)
        {
            for (auto& o : x.opts)
                opts[o.id] = &o;
            for (auto& s : x.cmds)
                collect(s);
        };
        collect(p.root);
        size_t i = 0;
        Strs rest;
        std::map<int, Strs> given;
        bool stopped = false, ended = false;
        for (auto& s : r.steps)
        {
            if (i >= line.size())
                bad("more steps than tokens");
            if (stopped || (ended && s.kind != 'C'))
                bad("a step after processing ended");
            const auto t = line[i++];
            if (s.kind == 'O')
            {
                auto o = opts[s.id];
                const bool takes = !o->argument.empty() && o->constant.empty() && (o->op == Op::ASSIGN || o->op == Op::APPEND);
                if (takes)
                {
                    const auto eq = t.find('=');
                    const bool is_long = t.size() > 2 && (t[1] == '-' || p.style != Style::STANDARD);
                    std::string v;
                    if (is_long && eq != std::string::npos)
                        v = t.substr(eq + 1);
                    else if (!is_long && t.size() > 2)
                        v = t.substr(2);
                    else if (i < line.size())
                        v = line[i++];
                    else
                        bad("option without value");
                    if (v != s.value)
                        bad("value of " + show(t) + " reported as " + show(s.value));
                    if (o->op == Op::APPEND)
                        given[s.id].push_back(v);
                }
                stopped = o->type != Type::NORMAL && o->type != Type::LAST_OPTION
                          && !(o->type == Type::LAST_ARGUMENT && p.root.multi);
                ended = o->type == Type::LAST_ARGUMENT;
            }
            else if (s.kind == 'C')
            {
                ended = false; // names are matched by the definition, see P11
            }
            else
            {
                if (s.value != t)
                    bad("token " + show(t) + " reported as " + show(s.value));
                if (s.kind == 'A')
                    given[s.id].push_back(t);
                else
                    rest.push_back(t);
            }
        }
        rest.insert(rest.end(), line.begin() + long(i), line.end());
        if (!stopped && i != line.size())
            bad("tokens left over without an option that ends processing");
        // all commands in order
        Strs all;
        std::map<int, Strs> got;
        std::function<void(const CmdOut&)> gather = [&](const CmdOut& x)
        {
            std::set<int> seen;
            all.insert(all.end(), x.unprocessed.begin(), x.unprocessed.end());
            for (auto& [n, vs] : x.values)
            {
                std::map<int, Strs> per;
                for (auto& v : vs)
                    per[v.src].push_back(v.text);
                for (auto& [id, v] : per)
                    if (seen.insert(id).second)
                        got[id].insert(got[id].end(), v.begin(), v.end());
            }
            for (auto& s : x.subs)
                gather(s);
        };
        gather(r.root);
        if (all != rest)
            bad("unprocessed " + show(all) + ", expected " + show(rest));
        for (auto& [id, v] : given)
            if (got[id] != v)
                bad("values of #" + std::to_string(id) + " are " + show(got[id]) + ", given " + show(v));
        c.outcome(std::to_string(given.size()) + " lists, " + std::to_string(rest.size()) + " unprocessed");
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P03";
    const bool q = quick(tier);
    std::vector<ParserSpec> specs;
    for (auto s : styles())
        for (int v = 0; v < 4; ++v)
        {
            auto p = parser(root({arg("a"), arg("m", 0, v & 1 ? MANY : 2)},
                                 {opt({"-f"}), append({"-o", "--opt"}), op({"-n"}, Op::NONE), typed({"-s"}, Type::STOP), typed({"-l"}, Type::LAST_OPTION)}));
            p = styled(p, s);
            p.ign_opt = v & 2;
            p.ign_arg = true;
            specs.push_back(p);
            auto p2 = parser(root({}, {append({"-o", "--opt"})},
                                  {cmd("x", {arg("m", 0, MANY)}, {append({"-p"}), typed({"-e"}, Type::LAST_ARGUMENT)}), cmd("y", {arg("n", 1, 2)}, {append({"-p"})})}));
            p2.root.multi = v & 1;
            p2 = styled(p2, s);
            p2.ign_opt = v & 2;
            p2.ign_arg = true;
            specs.push_back(p2);
        }
    for (auto& p : specs)
        number(p);
    auto restyled = [](Strs v, Style s)
    {
        CmdSpec c;
        for (auto& x : v)
        {
            OptSpec o;
            o.flags = {x};
            c.opts.push_back(o);
        }
        if (s != Style::STANDARD)
            restyle(c, s);
        Strs r;
        for (auto& o : c.opts)
            r.push_back(o.flags[0]);
        return r;
    };
    const Strs alphabet{"", "x", "y", "-o", "--opt=", "-f", "a b", "-n", "-s", "-l", "--zz", "-p", "-e", std::string("n\0l", 3), "-ow"};
    const size_t depth = q ? 4 : 5;
    k.families.push_back({"account", std::to_string(specs.size()) + " definitions (3 styles, ignore settings, sub-commands) x every line of up to "
                          + std::to_string(depth) + " tokens of " + show(alphabet) + "; every token of every successful parse is accounted for through iteration",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(specs);
                              auto line = restyled(pick_line(c, alphabet, depth), p.style);
                              compare(c, p, line, {.events = false});
                              // clusters other than -oVALUE are left to the model
                              account(c, p, line);
                          }});
    // Very long tokens and very many tokens.
    const std::vector<size_t> lengths = q ? std::vector<size_t>{1, 15, 16, 17, 255, 4096, 65537, 300000}
                                          : std::vector<size_t>{1, 15, 16, 17, 31, 32, 127, 128, 255, 256, 4095, 4096, 65536, 65537, 300000, 3000000};
    k.families.push_back({"long-tokens", std::to_string(specs.size()) + " definitions x token lengths up to " + std::to_string(lengths.back())
                          + " x positional, joined value, separate value, unknown, after an option that ends processing",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(specs);
                              const auto n = c.of(lengths);
                              std::string t(n, 'q');
                              t[n / 2] = char(0x80);
                              const auto shape = c.pick(7);
                              const bool sub = !p.root.cmds.empty();
                              Strs line;
                              if (sub)
                                  line.push_back("x");
                              const std::string f = sub ? "-p" : "-o";
                              switch (shape)
                              {
                              case 0: line.push_back(t); break;
                              case 1: line.push_back(f), line.push_back(t); break;
                              case 2: line = Strs{"--opt=" + t}; line.push_back("x"); break;
                              case 3: line.insert(line.end(), {"1", t, "2", t, "3"}); break;
                              case 4: line.insert(line.end(), {"1", "--zz" + t, "2", "--zz=" + t}); break;
                              case 5: line.insert(line.end(), {"1", sub ? "-e" : "-s", t, "2", t}); break;
                              case 6: line.insert(line.end(), {"1", sub ? "-e" : "-l", "-q" + t, t, "2"}); break;
                              }
                              compare(c, p, restyled(line, p.style), {.events = false});
                          }});
    const std::vector<size_t> counts = q ? std::vector<size_t>{10, 63, 64, 65, 300} : std::vector<size_t>{10, 63, 64, 65, 300, 1000, 2000};
    k.families.push_back({"many-tokens", std::to_string(specs.size()) + " definitions x token counts up to " + std::to_string(counts.back())
                          + " x one special token at the start, middle or end",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(specs);
                              const auto n = c.of(counts);
                              const auto where = c.pick(4);
                              const auto& what = c.of(alphabet);
                              const bool sub = !p.root.cmds.empty();
                              Strs line;
                              if (sub)
                                  line.push_back("x");
                              for (size_t i = 0; i < n; ++i)
                              {
                                  if (where == 0 ? i == 0 : where == 1 ? i == n / 2 : where == 2 ? i + 1 == n : i % 7 == 3)
                                      line.push_back(what);
                                  line.push_back("v" + std::to_string(i));
                                  if (i % 3 == 0)
                                  {
                                      line.push_back(sub ? "-p" : "-o");
                                      line.push_back("w" + std::to_string(i));
                                  }
                              }
                              compare(c, p, restyled(line, p.style), {.events = false});
                              account(c, p, restyled(line, p.style));
                          }});
    cross_families(k, q, {.events = false}, [](Chooser& c, const ParserSpec& p, const Strs& line)
                   {
                       compare(c, p, line, {.events = false});
                   });
    return k;
}
