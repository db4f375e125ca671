// Where words are broken.
#include "layout.hpp"
using namespace mc;

namespace
{
    std::string shown(const std::vector<Rule>& rules)
    {
        std::string s;
        for (auto& r : rules)
            s += " \"" + r.spelled() + "\"";
        return s;
    }

    enum Route { TEXT, ABOUT_OPTION, SUBCOMMAND, COPIED, MESSAGE, ROUTES };

    void check(Chooser& c, const std::string& text, unsigned width, const std::vector<Rule>& rules, int route = TEXT)
    {
        std::string output;
        if (route == TEXT)
            output = texts_output({{TextId::INITIAL_TEXT, text}}, width, rules);
        else
        {
            std::ostringstream s;
            argos::ArgumentParser p("prog");
            p.auto_exit(false).generate_help_option(route == ABOUT_OPTION).stream(&s).line_width(width);
            // rules added in one go, between other definitions
            for (auto& r : rules)
                p.add_word_splitting_rule(r.spelled());
            auto about = [&](auto& x) { x.text(TextId::USAGE, "").about(text); };
            if (route == ABOUT_OPTION)
            {
                about(p);
                p.add(argos::Option("-x").type(Type::HELP).visibility(Vis::HIDDEN));
                (void)p.parse({"-x"});
            }
            else if (route == SUBCOMMAND)
            {
                argos::Command x("sub");
                about(x);
                p.add(std::move(x));
                p.write_subcommand_help_text({"sub"});
            }
            else if (route == COPIED)
            {
                argos::Command x("sub");
                about(x);
                p.copy_from(x);
                p.write_help_text();
            }
            else
            {
                p.text(TextId::ERROR_USAGE, "");
                auto r = p.parse(std::vector<std::string_view>{});
                try
                {
                    r.error(text);
                }
                catch (argos::ArgosException&)
                {
                }
            }
            output = s.str();
        }
        const auto l = Layout::follow(output, width, rules, [&](Layout& l)
        {
            if (route == MESSAGE)
                l.words("prog: ");
            l.words(text);
            l.newline();
        });
        c.step(output.size());
        c.trace();
        c.state(hash64(output, width));
        c.outcome(std::string(l.open ? "open " : "") + (l.ruled ? "ruled " : "") + (l.breaks ? "broken " : "") + (l.forced ? "too long " : ""));
        if (!l.open && !l.problem.empty())
            c.fail("break", "line width " + std::to_string(width) + ", rules" + shown(rules) + ", text " + show(text) + ", route " + std::to_string(route) + ": " + l.problem + "\noutput:\n" + output);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P30";
    const bool q = quick(tier);
    const size_t longest = q ? 7 : 9;
    k.families.push_back({"rules", "every word of 2 to " + std::to_string(longest) + " of 3 characters (letter, hyphen, two-byte letter) x every rule for it x 4 words before x 4 punctuations after x line widths from 3 to " + std::to_string(longest + 4),
                          [=](Chooser& c)
                          {
                              std::vector<std::string> cs;
                              const auto n = 2 + c.pick(uint32_t(longest - 1));
                              for (uint32_t i = 0; i < n; ++i)
                                  cs.push_back(c.of(Strs{"a", "-", "\xc3\xa5"}));
                              Rule r{{cs[0]}};
                              std::string word = cs[0];
                              for (uint32_t i = 1; i < n; ++i)
                              {
                                  if (c.flip())
                                      r.pieces.push_back("");
                                  r.pieces.back() += cs[i];
                                  word += cs[i];
                              }
                              const auto before = c.of(Strs{"", "x ", "xyz ", "  "}), after = c.of(Strs{"", ".", ")!", " z"});
                              check(c, before + word + after, 3 + c.pick(uint32_t(longest + 2)), {r});
                          }});
    // Case and punctuation, several rules.
    const std::vector<Rule> rules{{{"abc", "def"}}, {{"ab", "cdefg"}}, {{"xy-", "zwv", "uu"}}, {{"abcdefgh", "ij"}}, {{"12", "345"}}, {{"\xc3\xa5\xc3\xa4", "\xc3\xb6\xc3\xb6"}}};
    const Strs words{"abcdef", "ABCDEF", "abcDEF", "abcdef,", "abcdef.)", "(abcdef", "abcdefg", "abcdefx", "abcde", "xy-zwvuu", "XY-ZWVUU!", "abcdefghij", "12345", "\xc3\xa5\xc3\xa4\xc3\xb6\xc3\xb6", "abcdef's", "abc", "def"};
    const std::vector<Rule> upper{{{"ABC", "DEF"}}, {{"Ab", "cdeFG"}}, {{"XY-", "zwv", "UU"}}};
    k.families.push_back({"several rules", "every one or two of " + std::to_string(words.size()) + " words x every subset of 6 rules, or 3 written in capitals x line widths from 3 to 20 x 5 ways to write them",
                          [=](Chooser& c)
                          {
                              std::vector<Rule> rs;
                              if (c.flip())
                                  rs = upper;
                              else
                                  for (auto& r : rules)
                                      if (c.flip())
                                          rs.push_back(r);
                              if (c.flip())
                                  std::reverse(rs.begin(), rs.end());
                              const auto a = c.of(words);
                              const auto b = c.flip() ? " " + c.of(words) : "";
                              const auto width = c.of(q ? std::vector<unsigned>{3, 4, 5, 6, 7, 8, 9, 11, 13} : std::vector<unsigned>{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20});
                              check(c, a + b, width, rs, q && !b.empty() ? int(rs.size()) % ROUTES : int(c.pick(ROUTES)));
                          }});
    // What may follow a word without hiding its rule.
    k.families.push_back({"punctuation", "a word with a rule, followed by every ASCII character, every pair of printable ASCII characters that aren't letters, or every triple of 10 of them x line widths from 3 to 14 x with the byte before the word or not",
                          [=](Chooser& c)
                          {
                              std::string tail;
                              const auto kind = c.pick(3);
                              if (kind == 0)
                              {
                                  const auto b = c.pick(127) + 1;
                                  if (b == '\t' || b == '\n' || b == '\r' || b == ' ')
                                      return;
                                  tail = char(b);
                              }
                              else
                              {
                                  std::string signs;
                                  for (char x = 33; x < 127; ++x)
                                      if (!isalpha(x))
                                          signs += x;
                                  if (kind == 2)
                                      signs = ".,!)>\"'-x`";
                                  for (uint32_t i = 0; i <= kind; ++i)
                                      tail += signs[c.pick(uint32_t(signs.size()))];
                              }
                              const auto before = kind == 0 ? c.of(Strs{"", "x ", "(", tail}) : "";
                              check(c, before + "abcdef" + tail, 3 + c.pick(12), {{{"abc", "def"}}});
                          }});
    // Without rules
    const size_t chars = q ? 8 : 10;
    k.families.push_back({"no rule", "every word of up to " + std::to_string(chars) + " of letter, digit, hyphen, underscore, two- and four-byte character, once and repeated x line widths from 3 to 9",
                          [=](Chooser& c)
                          {
                              std::string w;
                              for (auto& x : pick_line(c, q ? Strs{"a", "1", "-", "\xc3\xa5", "\xf0\x9f\x98\x80"} : Strs{"a", "1", "-", "_", "\xc3\xa5", "\xf0\x9f\x98\x80"}, chars, 1))
                                  w += x;
                              if (c.flip())
                                  w += w;
                              const auto width = 3 + c.pick(7);
                              check(c, w, width, {});
                          }});
    // Long words at larger widths
    k.families.push_back({"long words", "a word of 60 letters with a digit, a hyphen, a two-byte or three-byte letter at one or two places x the line widths from 3 to 61 x with a word before or not",
                          [=](Chooser& c)
                          {
                              std::string w;
                              const auto a = c.pick(60), b = c.pick(60);
                              const auto x = c.of(Strs{"1", "-", "\xc3\xa5", "\xe2\x82\xac"});
                              for (uint32_t i = 0; i < 60; ++i)
                                  w += i == a || i == b ? x : std::string(1, char('a' + i % 26));
                              const auto width = q ? c.of(std::vector<unsigned>{3, 4, 5, 7, 10, 16, 23, 31, 41, 59, 60, 61}) : 3 + c.pick(59);
                              check(c, (c.flip() ? "xy " : "") + w, width, {});
                          }});
    return k;
}
