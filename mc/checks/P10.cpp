// Case-insensitive matching.
#include "common.hpp"
using namespace mc;

namespace
{
    char fold(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }

    bool same(const std::string& a, const std::string& b, bool ci)
    {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (ci ? fold(a[i]) != fold(b[i]) : a[i] != b[i])
                return false;
        return true;
    }

    // The option (by id) that the only token of the line selects; 0: none
    // (unknown), -1: the definition was rejected, -2: something else.
    int selected(const ParserSpec& p, const std::string& token)
    {
        const auto r = real_run(p, {token});
        if (r.end == Outcome::THREW)
            return -1;
        if (r.end != Outcome::RETURNED)
            return -2;
        if (r.failed)
            return 0;
        if (r.events.size() == 1)
            return r.events[0].id;
        if (r.root.subs.size() == 1)
            return r.root.subs[0].id;
        return -2;
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P10";
    const bool q = quick(tier);
    auto spec = [](Style s, bool ci, const Strs& flags)
    {
        std::vector<OptSpec> os;
        for (auto& f : flags)
            os.push_back(opt({f}));
        auto p = parser(root({}, os));
        p.style = s;
        p.ci = ci;
        number(p);
        return p;
    };
    k.families.push_back({"bytes", "every byte x in a flag against every byte y in the token, x 4 shapes of flag (long, short, slash, dash) and a sub-command name, case-insensitive or not",
                          [=](Chooser& c)
                          {
                              const auto shape = c.pick(5);
                              const bool ci = c.flip();
                              const char x = char(c.pick(256)), y = char(c.pick(256));
                              auto text = [&](char b)
                              {
                                  const std::string m(1, b);
                                  return shape == 0 ? "--q" + m + "Z" : shape == 1 ? "-" + m : shape == 2 ? "/" + m + "a" : shape == 3 ? "-k" + m : m + "A";
                              };
                              // an '=' or a letter cluster is no plain spelling
                              if (x == '=' || y == '=' || (shape == 1 && (x == '-' || y == '-')))
                                  return;
                              ParserSpec p;
                              if (shape == 4)
                              {
                                  if (x == '-' || y == '-')
                                      return;
                                  p = parser(root({}, {}, {cmd(text(x))}));
                                  p.ci = ci;
                                  number(p);
                              }
                              else
                                  p = spec(shape == 2 ? Style::SLASH : shape == 3 ? Style::DASH : Style::STANDARD, ci, {text(x)});
                              const int got = selected(p, text(y));
                              c.trace();
                              c.step();
                              c.state((uint64_t(shape) * 2 + ci) << 16 | uint64_t(uint8_t(x)) << 8 | uint8_t(y));
                              c.outcome(std::to_string(got));
                              if (got == -1) // not a valid flag
                              {
                                  if (std::string(" \t\n\r").find(x) == std::string::npos)
                                      c.fail("rejected", "flag " + show(text(x)) + " is rejected");
                                  return;
                              }
                              const int want = same(text(x), text(y), ci) ? 1 : 0;
                              if (got != want)
                                  c.fail("byte", std::string(ci ? "case-insensitive" : "exact") + ": " + show(text(x)) + " and token " + show(text(y)) + (want ? " should match" : " should not match") + ", selected " + std::to_string(got));
                          }});
    // Every pair of flags: conflict or both reachable.
    k.families.push_back({"pairs", "every pair of bytes as flags of one command (two options, or one option with both), case-insensitive or not",
                          [=](Chooser& c)
                          {
                              const bool ci = c.flip(), one = c.flip();
                              const char x = char(c.pick(256)), y = char(c.pick(256));
                              const std::string bad = " \t\n\r=";
                              if (bad.find(x) != std::string::npos || bad.find(y) != std::string::npos)
                                  return;
                              const std::string fx = std::string("--") + x, fy = std::string("--") + y;
                              auto p = one ? parser(root({}, {opt({fx, fy})})) : spec(Style::STANDARD, ci, {fx, fy});
                              p.ci = ci;
                              number(p);
                              const bool conflict = same(fx, fy, ci);
                              const int a = selected(p, fx), b = selected(p, fy);
                              c.trace();
                              c.step(2);
                              c.state((uint64_t(one) * 2 + ci) << 16 | uint64_t(uint8_t(x)) << 8 | uint8_t(y));
                              c.outcome(std::to_string(a) + "," + std::to_string(b));
                              if (conflict ? (a != -1 || b != -1) : (a != 1 || b != (one ? 1 : 2)))
                                  c.fail("pair", std::string(ci ? "case-insensitive " : "exact ") + show(fx) + " and " + show(fy) + " in " + (one ? "one option" : "two options") + ": selected "
                                         + std::to_string(a) + " and " + std::to_string(b) + (conflict ? ", should be rejected" : ""));
                          }});
    // Sets of flags around the letters: all stay reachable by any casing.
    Strs pool;
    for (char ch : std::string("AaZzMm@[`{_^]~0~-.\x7f\xc3\xe3\xdf\xff\x01"))
        if (std::find(pool.begin(), pool.end(), std::string(1, ch)) == pool.end())
            pool.push_back(std::string(1, ch));
    for (auto s : {"A_", "a[", "AZ", "aa", "_a", "[b", "{A", "z^"})
        pool.push_back(s);
    k.families.push_back({"sets", "every set of up to " + std::to_string(q ? 4 : 5) + " flags with tails from " + show(pool) + " x every member, in both casings, case-insensitive or not",
                          [=](Chooser& c)
                          {
                              const bool ci = c.flip();
                              const size_t n = 2 + c.pick(q ? 3 : 4);
                              Strs flags;
                              size_t at = 0;
                              for (size_t i = 0; i < n && at < pool.size(); ++i)
                              {
                                  at += c.pick(uint32_t(pool.size() - at));
                                  flags.push_back("--" + pool[at++]);
                              }
                              bool conflict = false;
                              for (size_t i = 0; i < flags.size(); ++i)
                                  for (size_t j = 0; j < i; ++j)
                                      conflict |= same(flags[i], flags[j], ci);
                              auto p = spec(Style::STANDARD, ci, flags);
                              c.state(show(flags) + (ci ? "i" : "e"));
                              const auto parser = make_parser(p);
                              std::ostringstream null;
                              parser->stream(&null);
                              for (size_t i = 0; i < flags.size(); ++i)
                                  for (int v = 0; v < 2; ++v)
                                  {
                                      auto t = flags[i];
                                      if (v)
                                          for (auto& ch : t)
                                              ch = ch >= 'A' && ch <= 'Z' ? char(ch + 32) : ch >= 'a' && ch <= 'z' ? char(ch - 32) : ch;
                                      const auto r = real_run_on(*parser, p, {t}, Route::PARSE_CONST);
                                      const int got = r.end == Outcome::THREW ? -1 : r.failed ? 0 : r.events.size() == 1 ? r.events[0].id : -2;
                                      int want = 0;
                                      for (size_t j = 0; j < flags.size(); ++j)
                                          if (same(flags[j], t, ci))
                                              want = int(j + 1);
                                      if (conflict)
                                          want = -1;
                                      c.trace();
                                      c.step();
                                      c.outcome(std::to_string(got));
                                      if (got != want)
                                          c.fail("set", describe(p) + "token " + show(t) + " selects " + std::to_string(got) + ", not " + std::to_string(want));
                                  }
                          }});
    // In context: generated options, abbreviations, sub-command names, aliases.
    std::vector<ParserSpec> mixed;
    for (int i = 0; i < 32; ++i)
    {
        auto p = parser(root({}, {append({"-f", "--File"}), opt({i & 1 ? "-H" : "-x"}), opt({i & 2 ? "--HELP" : "--Xx"})},
                             {cmd("Sub", {arg("A", 0, 2)}, {append({"-F", "--Other"})}), cmd("other_", {arg("B", 1, 1)}, {opt({i & 4 ? "-h" : "--\xc3\x85"})})}));
        p.ci = i & 8;
        p.abbrev = i & 4;
        p.gen_help = true;
        p.version = i & 2 ? "1" : "";
        p.root.multi = i & 16;
        mixed.push_back(p);
    }
    k.families.push_back(lines_family("mixed", mixed, {"-f", "-F", "--FILE=x", "--file", "-h", "-H", "--help", "--VERSION", "sub", "SUB", "Sub", "OTHER_", "other\x7f", "--OT", "--\xc3\x85", "--\xe3\x85", "v"}, q ? 3 : 4, {.what = "case"}));
    k.families.push_back({"names", "every path of up to 3 sub-command names in every one of several casings through a tree of depth 3 (with siblings that differ in case only where that is allowed), by command line, help option and help function, case-insensitive or not",
                          [=](Chooser& c)
                          {
                              const bool ci = c.flip();
                              std::vector<CmdSpec> leaves{cmd("Ef"), cmd("x_")};
                              std::vector<CmdSpec> tops{cmd("Ab", {}, {}, {cmd("cD", {}, {}, leaves), cmd("x")}), cmd("g.H")};
                              if (!ci)
                              {
                                  tops[0].cmds.push_back(cmd("CD", {}, {}, leaves));
                                  tops.push_back(cmd("aB", {}, {}, {cmd("cd", {}, {}, {cmd("EF"), cmd("ef")})}));
                              }
                              for (auto& t : tops)
                              {
                                  t.require = false;
                                  for (auto& m : t.cmds)
                                      m.require = false;
                              }
                              auto p = parser(root({}, {}, tops));
                              p.root.require = false;
                              p.ci = ci;
                              p.gen_help = true;
                              p.line_width = 80;
                              number(p);
                              static const std::vector<Strs> words{{"Ab", "AB", "ab", "aB", "g.h", "G.H", "Ab ", "A"}, {"cD", "CD", "cd", "Cd", "x", "X"}, {"Ef", "EF", "ef", "eF", "X_", "X\x7f"}};
                              Strs path;
                              for (auto& w : words)
                              {
                                  const auto i = c.pick(uint32_t(w.size() + 1));
                                  if (i == w.size())
                                      break;
                                  path.push_back(w[i]);
                              }
                              // the path of indices it names
                              std::vector<size_t> found;
                              Strs exact;
                              const CmdSpec* at = &p.root;
                              for (auto& w : path)
                              {
                                  size_t i = 0;
                                  while (i < at->cmds.size() && !same(at->cmds[i].name, w, ci))
                                      ++i;
                                  if (i == at->cmds.size())
                                      break;
                                  found.push_back(i);
                                  at = &at->cmds[i];
                                  exact.push_back(at->name);
                              }
                              const bool known = found.size() == path.size();
                              c.trace();
                              c.step(3);
                              c.state(show(path) + (ci ? "i" : "e"));
                              c.outcome(known ? "known" : "unknown");
                              auto help = [&](const Strs& names, bool option)
                              {
                                  std::ostringstream s;
                                  auto real = make_parser(p);
                                  real->stream(&s);
                                  try
                                  {
                                      if (option)
                                      {
                                          auto line = names;
                                          line.push_back("--help");
                                          (void)real->parse({line.begin(), line.end()});
                                      }
                                      else
                                          real->write_subcommand_help_text(names);
                                  }
                                  catch (argos::ArgosException&)
                                  {
                                      return std::string("exception");
                                  }
                                  return s.str();
                              };
                              const auto want = known ? help(exact, false) : std::string("exception");
                              const auto function = help(path, false);
                              const auto about = show(path) + (ci ? " case-insensitive" : " exact");
                              expect_same(c, "names:function", "help of " + about, want, function, describe(p));
                              if (known)
                                  expect_same(c, "names:option", "help option of " + about, want, help(path, true), describe(p));
                              const auto r = real_run(p, path);
                              std::string got = r.failed ? "failed" : "", wanted = known ? "" : "failed";
                              const auto* n = &r.root;
                              if (!r.failed)
                                  while (!n->subs.empty())
                                  {
                                      n = &n->subs[0];
                                      got += std::to_string(n->id) + " ";
                                  }
                              if (known)
                              {
                                  at = &p.root;
                                  for (auto i : found)
                                      wanted += std::to_string((at = &at->cmds[i])->id) + " ";
                              }
                              // a token that names no command is an argument too many
                              expect_same(c, "names:line", "commands of " + about, wanted, got, describe(p));
                          }});
    cross_families(k, q, {.what = "case"});
    return k;
}
