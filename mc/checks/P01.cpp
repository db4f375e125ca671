// Token classification, flag matching and value location.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P01";
    const bool q = quick(tier);
    auto base = [](std::vector<OptSpec> o, Style s)
    {
        auto p = styled(parser(root({arg("arg", 0, MANY)}, std::move(o))), s);
        p.style = s;
        return p;
    };
    // Every token string over the characters the rules talk about, followed
    // by one more token of every kind.
    for (auto s : styles())
    {
        std::vector<ParserSpec> specs;
        if (s == Style::STANDARD)
        {
            specs = {
                base({opt({"-a"}), opt({"-b"}, "B"), opt({"--ab"}), opt({"--b"}, "V"), opt({"--ba="}, "W")}, s),
                base({opt({"-a", "--a"}, "A"), opt({"-="}), opt({"-b"})}, s),
                base({opt({"--a="}, "A"), opt({"--a"}), append({"-b", "--b"}), op({"-a"}, Op::NONE)}, s),
                base({opt({"-a"}), op({"-b"}, Op::CLEAR), with(opt({"--ab"}, ""), [](auto& o) { o.constant = "K"; }),
                      op({"--aa"}, Op::NONE, "X")}, s),
                base({opt({"--"}, "D"), opt({"-a"}), append({"-b"})}, s),
            };
        }
        else
        {
            const std::string P = s == Style::SLASH ? "/" : "-";
            specs = {
                base({opt({P + "a"}), opt({P + "b"}, "B"), opt({P + "ab"}), opt({P + "ba="}, "W")}, s),
                base({opt({P + "a", P + "aa"}, "A"), opt({P + "b"}), append({P + "bb"})}, s),
                base({opt({P + "a="}, "A"), opt({P + "a"}), op({P + "b"}, Op::NONE), op({P + "bb"}, Op::CLEAR)}, s),
                base({with(opt({P + "ab"}), [](auto& o) { o.constant = "K"; }), op({P + "aa"}, Op::NONE, "X"), opt({P + "b"}, "V")}, s),
                base({opt({P + P}, "D"), opt({P + "a"}), append({P + "b"})}, s),
            };
        }
        for (auto& p : specs)
            number(p);
        const std::string chars = s == Style::SLASH ? "ab/=-" : "ab-=/";
        const size_t len = s == Style::STANDARD ? (q ? 6 : 7) : (q ? 5 : 7);
        const Strs after{"", "v", "-a", "/b", "=", "--ab"};
        const std::string nm = s == Style::STANDARD ? "standard" : s == Style::SLASH ? "slash" : "dash";
        k.families.push_back({"strings-" + nm, std::to_string(specs.size()) + " definitions x every token of up to " + std::to_string(len)
                              + " characters of '" + chars + "' alone or followed by one of " + show(after),
                              [=](Chooser& c)
                              {
                                  const auto& p = c.of(specs);
                                  Strs line{pick_string(c, chars, len)};
                                  if (auto n = c.pick(uint32_t(after.size() + 1)))
                                      line.push_back(after[n - 1]);
                                  compare(c, p, line);
                              }});
        // Every byte value in every place of a short token.
        k.families.push_back({"bytes-" + nm, "2 definitions x every byte value alone, after the prefix, before a letter, in the middle of "
                              "a flag, joined to an option, after '=' and as a separate value",
                              [=](Chooser& c)
                              {
                                  const auto& p = specs[c.pick(2)];
                                  const std::string P = s == Style::SLASH ? "/" : "-";
                                  const std::string L = s == Style::STANDARD ? "--" : P;
                                  const auto shape = c.pick(9);
                                  const std::string b(1, char(c.pick(256)));
                                  Strs line;
                                  switch (shape)
                                  {
                                  case 0: line = {b}; break;
                                  case 1: line = {P + b}; break;
                                  case 2: line = {b + "a"}; break;
                                  case 3: line = {L + "a" + b}; break;
                                  case 4: line = {P + "b" + b}; break;
                                  case 5: line = {L + "ba=" + b}; break;
                                  case 6: line = {P + "b", b, "x"}; break;
                                  case 7: line = {L + b + "b=v"}; break;
                                  case 8: line = {L + "ab" + b, "z"}; break;
                                  }
                                  compare(c, p, line);
                              }});
        // Sequences: values that look like options, empty values.
        const std::string P = s == Style::SLASH ? "/" : "-", L = s == Style::STANDARD ? "--" : P;
        Strs alphabet{P + "a", P + "b", L + "ab", L + "ba=", L + "ba=x", L + "ab=y", "", P, "w", L + "ba", "--", P + "bx"};
        for (size_t i = 0; i < specs.size(); ++i)
            k.families.push_back(lines_family("lines-" + nm + std::to_string(i), {specs[i]}, alphabet, q ? 4 : 6));
    }
    many_family(k, q, {});
    cross_families(k, q, {});
    return k;
}
