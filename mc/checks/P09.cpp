// Abbreviated flags.
#include "common.hpp"
using namespace mc;

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P09";
    const bool q = quick(tier);
    CompareOpts o{.events = false, .iterate = true, .what = "abbreviation"};
    struct Style_
    {
        Style s;
        Strs flags;
        std::string prefix;
    };
    // Flags over a tiny alphabet, so that every prefix relation occurs.
    const std::vector<Style_> all{
        {Style::STANDARD, {"--a", "--ab", "--abc", "--abd", "--b", "--ba", "--abcd", "-a", "--a-b"}, "--"},
        {Style::SLASH, {"/a", "/ab", "/abc", "/abd", "/b", "/ba", "/abcd", "/A", "/a-b"}, "/"},
        {Style::DASH, {"-a", "-ab", "-abc", "-abd", "-b", "-ba", "-abcd", "-B", "-a-b"}, "-"}};
    for (auto& st : all)
    {
        k.families.push_back(
            {st.s == Style::STANDARD ? "standard" : st.s == Style::SLASH ? "slash" : "dash",
             "every set of up to " + std::to_string(q ? 3 : 4) + " of " + show(st.flags) + ", each a plain flag or taking a value, shared by one option or not, "
             "abbreviations and case-insensitivity on or off x every token of up to " + std::to_string(q ? 3 : 4) + " characters of 'abcdAB-=' after the prefix, with or without a following word",
             [=](Chooser& c)
             {
                 Strs flags;
                 size_t at = 0;
                 const size_t n = 1 + c.pick(3 + !q);
                 for (size_t i = 0; i < n && at < st.flags.size(); ++i)
                 {
                     at += c.pick(uint32_t(st.flags.size() - at));
                     flags.push_back(st.flags[at++]);
                 }
                 const auto shape = c.pick(flags.size() > 1 ? 4 : 2);
                 std::vector<OptSpec> os;
                 if (shape >= 2) // the first two flags belong to one option
                     os.push_back(shape == 2 ? opt({flags[0], flags[1]}) : append({flags[0], flags[1]}));
                 for (size_t i = shape >= 2 ? 2 : 0; i < flags.size(); ++i)
                     os.push_back((i + shape) % 2 ? append({flags[i]}) : op({flags[i]}, Op::APPEND));
                 for (auto& x : os)
                     if (x.op == Op::APPEND && x.argument.empty())
                         x.constant = "on";
                 ParserSpec p = parser(root({arg("A", 0, 2)}, os));
                 p.style = st.s;
                 const auto mode = c.pick(3);
                 p.abbrev = mode != 0;
                 p.ci = mode == 2;
                 p.ign_opt = false;
                 if (p.ci)
                     for (size_t i = 0; i < flags.size(); ++i)
                         for (size_t j = 0; j < i; ++j)
                         {
                             auto lo = [](std::string s)
                             {
                                 for (auto& ch : s)
                                     if (ch >= 'A' && ch <= 'Z')
                                         ch = char(ch + 32);
                                 return s;
                             };
                             if (lo(flags[i]) == lo(flags[j]))
                                 return; // a conflict: P10
                         }
                 number(p);
                 Strs line{st.prefix + pick_string(c, p.ci ? "abcAB-=" : "abcd-=", q ? 3 : 4)};
                 if (c.flip())
                     line.push_back("word");
                 compare(c, p, line, o, Route::ITERATE);
             }});
    }
    // Interaction with the rest: scopes, clusters, values, generated options,
    // words that look like beginnings.
    std::vector<ParserSpec> mixed;
    for (int i = 0; i < 16; ++i)
    {
        auto kc = op({"--verb"}, Op::CLEAR);
        kc.alias = "--file";
        auto p = parser(root({}, {append({"--file"}), append({"--filter"}), kc, opt({"-v", "--verbose"}), typed({"--end"}, Type::LAST_OPTION), opt({"--helper"})},
                             {cmd("file", {arg("F", 0, 3)}, {append({"--format="}, "X"), opt({"--for"}), typed({"--stop"}, Type::STOP)}), cmd("fil", {arg("G", 0, 1)})}));
        p.abbrev = true;
        p.gen_help = i & 1;
        p.version = i & 2 ? "1" : "";
        p.ign_opt = i & 4;
        p.root.multi = i & 8;
        mixed.push_back(p);
    }
    k.families.push_back(lines_family("mixed", mixed, {"--fil", "--file", "--filt", "--fi=", "--filte=x", "--verb", "--verbo", "--e", "file", "fil", "--fo", "--form=y", "--h", "--vers", "--f", "-v", "--s", "--st"},
                                      q ? 3 : 4, {.iterate = true, .what = "abbreviation"}, {Route::ITERATE}));
    // Abbreviated values counted ahead the same way
    std::vector<ParserSpec> ahead;
    for (bool ab : {true, false})
    {
        auto p = parser(root({arg("A", 0, 2), arg("B", 1, 1)}, {append({"--alpha"}), opt({"--beta"}), append({"--bet="}, "Y"), typed({"--stop"}, Type::STOP)}));
        p.abbrev = ab;
        p.ign_opt = true;
        ahead.push_back(p);
    }
    k.families.push_back(lines_family("counting", ahead, {"v", "--al", "--alpha", "--bet", "--bet=", "--be", "--sto", "--al=x"}, q ? 5 : 6, {.what = "abbreviation"}));
    cross_families(k, q, o);
    return k;
}
