// What help lists: visibility, names, help texts, at every level and by every
// route.
#include "help.hpp"
using namespace mc;

namespace
{
    const std::vector<Vis>& visibilities()
    {
        static const std::vector<Vis> v{Vis::NORMAL, Vis::TEXT, Vis::USAGE, Vis::HIDDEN};
        return v;
    }

    std::vector<OptSpec> option_kinds(Style style)
    {
        auto must = [](OptSpec o) { o.optional = false; return o; };
        std::vector<OptSpec> v{opt({"-f"}), opt({"-g", "--gg"}), opt({"--only"}), opt({"-v"}, "VAL"), opt({"-w", "--ww"}, "<VAL>"), opt({"--eq="}, "E"),
                               opt({"-x", "--xx=", "--yy"}, "X"), must(opt({"-m", "--mm"})), must(append({"-n"}, "N")), typed({"-H", "--HH"}, Type::HELP),
                               typed({"-s"}, Type::STOP, "S"), typed({"-e", "-E", "--ee="}, Type::EXIT, "<E>"), typed({"--la"}, Type::LAST_ARGUMENT), typed({"-l"}, Type::LAST_OPTION), op({"-o"}, Op::NONE), op({"-c"}, Op::CLEAR)};
        if (style != Style::STANDARD)
        {
            ParserSpec p = parser(root({}, v));
            v = styled(p, style).root.opts;
        }
        return v;
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P27";
    const bool q = quick(tier);
    auto help_of = [](const std::string& s) { return "Help of " + s + "."; };

    for (auto style : styles())
    {
        const auto kinds = option_kinds(style);
        const size_t most = q ? 2 : 3;
        k.families.push_back({style == Style::STANDARD ? "options" : style == Style::SLASH ? "slash options" : "dash options",
                              "every list of up to " + std::to_string(most) + " different options of " + std::to_string(kinds.size()) + " kinds x 4 visibilities each x with or without help text x an automatic help option, version option, both or neither",
                              [=](Chooser& c)
                              {
                                  std::vector<OptSpec> os;
                                  const auto n = c.pick(uint32_t(most + 1));
                                  std::vector<size_t> used;
                                  for (uint32_t i = 0; i < n; ++i)
                                  {
                                      const auto at = c.pick(uint32_t(kinds.size()));
                                      if (std::count(used.begin(), used.end(), at))
                                          return;
                                      used.push_back(at);
                                      auto o = kinds[at];
                                      o.visibility = visibilities()[c.pick(4)];
                                      if (c.flip())
                                          o.help = help_of(o.flags[0]);
                                      os.push_back(o);
                                  }
                                  auto p = parser(root({}, os));
                                  p.style = style;
                                  p.gen_help = c.flip();
                                  if (c.flip())
                                      p.version = "1";
                                  number(p);
                                  check_help(c, p, {}, HelpRoute::FUNCTION, "", "help:options");
                                  c.outcome(std::to_string(n));
                              }});
    }
    struct Count
    {
        unsigned min, max;
    };
    const std::vector<Count> counts{{1, 1}, {0, 1}, {0, 2}, {0, MANY}, {1, 2}, {2, 2}, {2, 3}, {2, 5}, {1, MANY}, {3, 3}};
    k.families.push_back({"arguments", std::string("every list of up to ") + (q ? "2" : "3") + " arguments of 10 counts and 3 ways to spell the name x 4 visibilities x with or without help text, with an option or not",
                          [=](Chooser& c)
                          {
                              std::vector<ArgSpec> as;
                              const auto n = 1 + c.pick(q ? 2 : 3);
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto x = c.of(counts);
                                  const auto name = std::string(1, char('A' + i));
                                  const auto spelling = c.pick(3);
                                  auto a = arg(spelling == 0 ? name : spelling == 1 ? "<" + name + "...>" : "[" + name + "]", x.min, x.max);
                                  a.visibility = visibilities()[c.pick(4)];
                                  if (c.flip())
                                      a.help = help_of(name);
                                  as.push_back(a);
                              }
                              auto p = parser(root(as, {opt({"-f"})}));
                              number(p);
                              check_help(c, p, {}, HelpRoute::FUNCTION, "", "help:arguments");
                              c.outcome(std::to_string(n));
                          }});
    // The help of every command of a tree, by every route.
    k.families.push_back({"commands", "a tree of 5 commands x 4 visibilities of 3 of them, of an option and of an argument x required or not x the help of every command by 4 routes x ways of handing over definitions",
                          [=](Chooser& c)
                          {
                              auto o = opt({"-f", "--ff"}, "F");
                              o.help = help_of("-f");
                              o.visibility = visibilities()[c.pick(4)];
                              auto a = arg("ARG", 0, 2);
                              a.help = help_of("ARG");
                              a.visibility = visibilities()[c.pick(4)];
                              auto leaf = cmd("leaf", {a}, {o, opt({"-l"})}), twig = cmd("twig", {}, {opt({"-t"})});
                              leaf.texts[TextId::HELP] = help_of("leaf");
                              leaf.visibility = visibilities()[c.pick(4)];
                              auto sub = cmd("sub", {}, {o, opt({"-s"})}, {leaf, twig}), other = cmd("other", {a}, {opt({"-o"})});
                              sub.texts[TextId::HELP] = help_of("sub");
                              sub.visibility = visibilities()[c.pick(4)];
                              other.visibility = visibilities()[c.pick(4)];
                              if (const auto r = c.pick(3))
                                  sub.require = r == 1;
                              auto p = parser(root({}, {opt({"-p", "--parent"}, "P")}, {sub, other}));
                              if (c.flip())
                                  p.root.require = false;
                              const auto way = CmdSpec::Way(c.pick(q ? 2 : CmdSpec::WAYS));
                              p.root.cmds[0].way = way;
                              p.root.cmds[0].cmds[0].way = way;
                              p.gen_help = true;
                              number(p);
                              static const std::vector<std::vector<size_t>> paths{{}, {0}, {0, 0}, {0, 1}, {1}};
                              const auto route = HelpRoute(c.pick(q ? 2 : 4));
                              check_help(c, p, c.of(paths), route, c.flip() ? "-h" : "--help", "help:commands");
                              c.outcome(std::to_string(int(route)));
                          }});
    // Every route and way of handing over definitions, on one tree.
    k.families.push_back({"copies", "a tree of 6 commands of 3 levels x 6 ways of handing over each of 4 definitions x the help of every command by 4 routes x custom stream or none x 3 styles",
                          [=](Chooser& c)
                          {
                              auto item = [&](OptSpec o, Vis v, const std::string& section)
                              {
                                  o.visibility = v;
                                  o.help = help_of(o.flags[0]);
                                  o.section = section;
                                  return o;
                              };
                              auto a = arg("ARG", 1, 3);
                              a.help = help_of("ARG");
                              a.visibility = Vis::TEXT;
                              a.text_function = true;
                              auto hidden = cmd("hidden", {}, {opt({"-h"})});
                              hidden.visibility = Vis::HIDDEN;
                              auto usage = cmd("usage", {}, {});
                              usage.visibility = Vis::USAGE;
                              auto leaf = cmd("leaf", {a, arg("[LAST]", 0, 1)}, {item(opt({"-a"}, "A"), Vis::NORMAL, ""), item(opt({"-b"}), Vis::USAGE, "Special"), item(opt({"-c", "--cc"}), Vis::TEXT, "Special"), item(opt({"-d"}), Vis::HIDDEN, "Special")});
                              leaf.texts = {{TextId::HELP, help_of("leaf")}, {TextId::ABOUT, "About leaf."}, {TextId::OPTIONS_TITLE, "The options"}};
                              leaf.text_functions = {TextId::HELP, TextId::ABOUT, TextId::OPTIONS_TITLE};
                              leaf.section = "Leaves";
                              auto sub = cmd("sub", {}, {item(opt({"-s"}), Vis::TEXT, "")}, {hidden, leaf, usage});
                              sub.texts = {{TextId::HELP, help_of("sub")}, {TextId::SUBCOMMANDS_TITLE, "The commands"}};
                              sub.require = false;
                              sub.visibility = Vis::TEXT;
                              auto p = parser(root({}, {item(opt({"-p"}), Vis::NORMAL, "")}, {sub, cmd("other", {}, {})}));
                              p = styled(p, c.of(styles()));
                              p.root.way = c.flip() ? CmdSpec::COPY_FROM : CmdSpec::DIRECT;
                              auto way = [&] { return CmdSpec::Way(c.pick(CmdSpec::WAYS)); };
                              p.root.cmds[0].way = way();
                              p.root.cmds[0].cmds[1].way = way();
                              p.root.cmds[0].cmds[2].way = p.root.cmds[0].cmds[0].way = q ? p.root.cmds[0].way : way();
                              p.gen_help = true;
                              p.custom_stream = c.flip();
                              p.version = c.flip() ? "2" : "";
                              number(p);
                              static const std::vector<std::vector<size_t>> paths{{}, {0}, {0, 0}, {0, 1}, {0, 2}, {1}};
                              const auto path = c.of(paths);
                              const auto route = HelpRoute(c.pick(4));
                              // the command "hidden" has taken -h for itself
                              const bool taken = path.size() == 2 && path[1] == 0;
                              if (taken && p.style == Style::DASH && route != HelpRoute::FUNCTION)
                                  return;
                              check_help(c, p, path, route, p.style == Style::SLASH ? "/?" : taken ? "--help" : "-h", "help:copies");
                              c.outcome(std::to_string(int(route)));
                          }});
    return k;
}
