// The layout of texts.
#include "layout.hpp"
using namespace mc;

namespace
{
    std::string summary(const Layout& l)
    {
        return std::string(l.open ? "open" : "") + (l.forced ? "too long " : "") + (l.breaks ? "broken " : "") + (l.wraps ? "wrapped" : "");
    }

    void check_texts(Chooser& c, const std::map<TextId, std::string>& texts, unsigned width)
    {
        const auto output = texts_output(texts, width);
        const auto l = Layout::follow(output, width, {}, [&](Layout& l)
        {
            bool any = false;
            for (auto& [id, t] : texts)
            {
                if (t.empty())
                    continue;
                if (any || id == TextId::FINAL_TEXT)
                    l.newline();
                l.paragraph(t);
                any = true;
            }
        });
        c.step(output.size());
        c.trace();
        c.state(hash64(output, width));
        c.outcome(summary(l));
        if (!l.open && !l.problem.empty())
        {
            std::string s = "line width " + std::to_string(width);
            for (auto& [id, t] : texts)
                s += ", " + to_string(id) + " " + show(t);
            c.fail("layout", s + ": " + l.problem + "\noutput:\n" + output);
        }
    }

    // The whole help of a program, exactly.
    void check_help(Chooser& c, const ParserSpec& p)
    {
        auto real = make_parser(p);
        std::ostringstream s;
        real->stream(&s);
        real->line_width(p.line_width);
        real->write_help_text();
        const auto width = p.line_width;
        const auto output = s.str();
        auto bracketed = [](const std::string& x) { return x[0] == '<' ? x : "<" + x + ">"; };
        auto spelled = [&](const std::string& f, const OptSpec& o) { return o.argument.empty() ? f : f + (f.back() == '=' ? "" : " ") + bracketed(o.argument); };
        struct Item
        {
            std::string name, help;
        };
        std::vector<std::pair<std::string, std::vector<Item>>> sections;
        for (auto& a : p.root.args)
            sections.empty() ? sections.push_back({"ARGUMENTS", {{"<" + a.name + ">", a.help}}}) : sections.back().second.push_back({"<" + a.name + ">", a.help});
        for (auto& x : p.root.cmds)
        {
            auto t = x.texts.count(TextId::HELP) ? x.texts.at(TextId::HELP) : "";
            sections.empty() ? sections.push_back({"COMMANDS", {{x.name, t}}}) : sections.back().second.push_back({x.name, t});
        }
        for (size_t i = 0; i < p.root.opts.size(); ++i)
        {
            if (i == 0)
                sections.push_back({"OPTIONS", {}});
            std::string names;
            for (auto& f : p.root.opts[i].flags)
                names += (names.empty() ? "" : ", ") + spelled(f, p.root.opts[i]);
            sections.back().second.push_back({names, p.root.opts[i].help});
        }
        size_t name = 0, help = 0;
        for (auto& [_, items] : sections)
            for (auto& i : items)
            {
                name = std::max(name, i.name.size());
                help = std::max(help, i.help.size());
            }
        const unsigned column = unsigned(name + 3);
        const bool same_line = column <= 32 && column + help <= width;
        const auto l = Layout::follow(output, width, {}, [&](Layout& l)
        {
            l.words("USAGE");
            l.newline();
            l.push(2);
            l.words(p.root.name);
            l.words(" ");
            l.push_here();
            for (auto& o : p.root.opts)
            {
                l.atom("[" + spelled(o.flags[0], o) + "]");
                l.words(" ");
            }
            for (auto& a : p.root.args)
            {
                l.atom("<" + a.name + ">");
                l.words(" ");
            }
            for (auto& x : p.root.cmds)
                l.words((&x == &p.root.cmds[0] ? "" : "|") + x.name);
            l.pop();
            l.newline();
            l.pop();
            for (auto& [title, items] : sections)
            {
                l.newline();
                l.words(title);
                l.newline();
                l.push(2);
                for (auto& i : items)
                {
                    l.words(i.name);
                    if (!i.help.empty())
                    {
                        if (!same_line)
                            l.newline();
                        l.push(same_line ? column : 8);
                        l.words(i.help);
                        l.pop();
                    }
                    l.newline();
                }
                l.pop();
            }
        });
        c.step(s.str().size());
        c.trace();
        c.state(hash64(s.str(), width));
        c.outcome(summary(l));
        if (!l.open && !l.problem.empty())
            c.fail("help layout", "line width " + std::to_string(width) + "\n" + describe(p) + l.problem + "\noutput:\n" + s.str());
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P29";
    const bool q = quick(tier);
    auto text_family = [&](std::string name, Strs alphabet, size_t most, std::vector<unsigned> widths)
    {
        k.families.push_back({name, "every text of up to " + std::to_string(most) + " of " + show(alphabet) + " x " + std::to_string(widths.size()) + " line widths from " + std::to_string(widths.front()) + " to " + std::to_string(widths.back()),
                              [=](Chooser& c)
                              {
                                  const auto width = c.of(widths);
                                  std::string t;
                                  for (auto& s : pick_line(c, alphabet, most))
                                      t += s;
                                  check_texts(c, {{TextId::INITIAL_TEXT, t}}, width);
                              }});
    };
    text_family("words", {"a", "bcd", "efghij", "x-yz", "\xc3\xa5\xc3\xa4\xc3\xb6", "12", " ", "   ", "\t", "\n", "\r\n", "\r", "- ", "1. "}, q ? 5 : 6, {3, 4, 5, 6, 8, 10, 13, 20});
    text_family("characters", {"a", " ", "\n", "\t", "-"}, q ? 8 : 10, {3, 4, 5, 6, 7, 8, 9, 12});
    text_family("lists", {"*", "12.", "ab", "cdefg", " ", "  ", "\n"}, q ? 6 : 8, {3, 4, 5, 6, 7, 9, 11, 14});
    text_family("paragraphs", {"The ", "quick brown ", "fox-like ", "\xe2\x82\xac", "\n", "\n\n", "  * ", "    ", "jumps_over_it ", "12345678901234567890"}, q ? 5 : 7, {7, 10, 14, 25, 40});
    // A text never affects the layout of those after it.
    const Strs tricky{"", "a b", " ", "  a\n", "\ta\n b", "- a b\n", "- ", "-", "1. a\n\n", "    abcdefghij", "a\n  ", "\n", "* a\n * b", "abcdefghijklm n", "  \n", "  - ", "\t\t"};
    k.families.push_back({"several texts", "every three of " + std::to_string(tricky.size()) + " texts with special endings, as initial, about and final text x 6 line widths",
                          [=](Chooser& c)
                          {
                              std::map<TextId, std::string> t;
                              for (auto id : {TextId::INITIAL_TEXT, TextId::ABOUT, TextId::FINAL_TEXT})
                                  t[id] = c.of(tricky);
                              check_texts(c, t, c.of(std::vector<unsigned>{4, 6, 8, 10, 15, 30}));
                          }});
    const Strs names{"a", "long-name", "very-very-long-name-indeed-of-it"}, helps{"", "a", "Some words of help that take up some room.", "- a b\n- c", "  Indented\nback", "\tx\n", "Some-long-word-that_has_to_be_broken", "x\n\ny"};
    const std::vector<unsigned> widths{3, 4, 6, 8, 9, 10, 11, 12, 14, 16, 20, 24, 32, 34, 36, 40, 44, 48, 60, 80};
    k.families.push_back({"help", "1 or 2 arguments or sub-commands of 3 names and up to 2 options of 4 kinds with 8 help texts each x " + std::to_string(widths.size()) + " line widths from 3 to 80",
                          [=](Chooser& c)
                          {
                              auto p = parser(root({}));
                              p.line_width = c.of(widths);
                              const bool commands = c.flip();
                              const auto n = c.pick(q ? 2 : 3);
                              const std::vector<OptSpec> kinds{opt({"-a"}), opt({"-b", "--bb"}, "VALUE"), opt({"-c", "--ccc-ccc", "--cccccccccccccccc"}, "<SOME VALUE>"), opt({"--ddddddd="}, "D")};
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  auto name = c.of(names) + std::to_string(i);
                                  auto help = c.of(helps);
                                  if (commands)
                                  {
                                      p.root.cmds.push_back(cmd(name));
                                      p.root.cmds.back().texts[TextId::HELP] = help;
                                  }
                                  else
                                  {
                                      p.root.args.push_back(arg(name));
                                      p.root.args.back().help = help;
                                  }
                              }
                              uint32_t from = 0;
                              for (int i = 0; i < 2; ++i)
                              {
                                  const auto at = from + c.pick(uint32_t(kinds.size()) + 1 - from);
                                  if (at == kinds.size())
                                      break;
                                  p.root.opts.push_back(kinds[at]);
                                  p.root.opts.back().help = c.of(helps);
                                  from = at + 1;
                              }
                              number(p);
                              check_help(c, p);
                          }});
    // Messages are laid out as well.
    k.families.push_back({"messages", "every message of up to " + std::to_string(q ? 4 : 5) + " words of 7, reported by the client x line widths from 3 to 30",
                          [=](Chooser& c)
                          {
                              const auto width = c.of(std::vector<unsigned>{3, 5, 6, 7, 8, 10, 12, 15, 20, 30});
                              std::string m;
                              for (auto& s : pick_line(c, {"a", "bcd ", "efghijkl", " x-y", "\n", "\xc3\xa5\xc3\xa4 ", "Value: "}, q ? 4 : 5, 1))
                                  m += s;
                              if (strchr(" \t", m[0]))
                                  return;
                              std::ostringstream s;
                              argos::ArgumentParser p("prog");
                              p.auto_exit(false).generate_help_option(false).stream(&s).line_width(width).text(TextId::ERROR_USAGE, "End.");
                              auto r = p.parse(std::vector<std::string_view>{});
                              try
                              {
                                  r.error(m);
                              }
                              catch (argos::ArgosException&)
                              {
                              }
                              const auto l = Layout::follow(s.str(), width, {}, [&](Layout& l)
                              {
                                  l.words("prog: ");
                                  l.words(m);
                                  l.newline();
                                  l.paragraph("End.");
                              });
                              c.step(s.str().size());
                              c.trace();
                              c.state(hash64(s.str(), width));
                              c.outcome(summary(l));
                              if (!l.open && !l.problem.empty())
                                  c.fail("message layout", "line width " + std::to_string(width) + ", message " + show(m) + ": " + l.problem + "\noutput:\n" + s.str());
                          }});
    return k;
}
