// Error messages.
#include "common.hpp"
#include "Argos/ParsedArgumentsBuilder.hpp"
using namespace mc;

namespace
{
    // Every command gets an error usage that tells which command it is of.
    void mark(CmdSpec& c, const std::string& parent = {})
    {
        const auto full = parent.empty() ? c.name : parent + " " + c.name;
        c.texts[TextId::ERROR_USAGE] = "MARK(" + full + ")";
        for (auto& x : c.cmds)
            mark(x, full);
    }

    std::vector<unsigned long> numbers(const std::string& s)
    {
        std::vector<unsigned long> r;
        for (size_t i = 0; i < s.size();)
            if (isdigit(static_cast<unsigned char>(s[i])))
            {
                unsigned long n = 0;
                for (; i < s.size() && isdigit(static_cast<unsigned char>(s[i])); ++i)
                    n = n * 10 + static_cast<unsigned long>(s[i] - '0');
                r.push_back(n);
            }
            else
                ++i;
        return r;
    }

    // The output must be one message of one of the expected commands, followed
    // by what `rest` says for that command.
    void message(Chooser& c, const ParserSpec& p, const std::string& context, const Outcome& m, const std::string& output,
                 const std::function<std::string(const std::string& command)>& rest)
    {
        auto fail = [&](const char* sig, const std::string& what)
        {
            std::string want;
            for (auto& e : m.errors)
                want += "\n  for " + e.command + ": " + show(e.mentions);
            c.fail(std::string("message:") + sig, context + "\n" + describe(p) + what + "\noutput: " + output + "\nacceptable errors:" + want);
        };
        const auto eol = output.find('\n');
        if (eol == output.npos)
            fail("missing", "no complete message");
        const auto first = output.substr(0, eol), after = output.substr(eol + 1);
        bool prefixed = false, named = false, followed = false;
        for (auto& e : m.errors)
        {
            if (first.rfind(e.command + ": ", 0) != 0)
                continue;
            prefixed = true;
            const auto text = first.substr(e.command.size() + 2);
            bool all = true;
            size_t from = 0;
            for (auto& x : e.mentions)
            {
                const auto at = text.find(x, from);
                all = all && at != text.npos;
                if (at != text.npos && x.size() > 1)
                    from = at + x.size();
            }
            if (all && !e.mentions.empty() && e.mentions[0] == "Too few arguments")
            {
                auto expected = numbers(e.mentions[1]);
                expected.push_back(numbers(e.mentions[2]).at(0));
                all = numbers(text) == expected;
            }
            named = named || all;
            if (all)
                followed = followed || after == rest(e.command);
        }
        if (!prefixed)
            fail("prefix", "the message does not start with the name of a command concerned");
        if (!named)
            fail("culprit", "the message does not say what is wrong");
        if (!followed)
            fail("rest", "unexpected text after the message");
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P23";
    const bool q = quick(tier);
    CompareOpts o{.what = "errors"};
    auto judge = [o](Chooser& c, const ParserSpec& p, const Strs& line, Route route, const std::function<std::string(const std::string&)>& rest)
    {
        const auto m = model_run(p, line);
        c.step(m.steps_taken);
        if (m.undefined)
        {
            c.outcome("left open");
            return;
        }
        c.trace();
        c.state(hash64(show(line) + describe(p)));
        const auto r = real_run(p, line, route);
        compare_with(c, p, line, m, r, o);
        const auto& err = p.custom_stream ? r.custom : r.err;
        if (m.errors.empty())
        {
            if (m.help_for.empty() && !m.version_shown && !(r.custom + r.out + r.err).empty())
                c.fail("message:unasked", "command line " + show(line) + "\n" + describe(p) + "output: " + r.custom + r.out + r.err);
            c.outcome("no error");
            return;
        }
        message(c, p, "command line " + show(line), m, err, rest);
        c.outcome(m.errors[0].mentions.empty() ? "" : m.errors[0].mentions[0]);
    };
    auto marked = [](const std::string& command) { return "MARK(" + command + ")\n"; };
    auto family = [&](std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most)
    {
        for (auto& p : specs)
        {
            mark(p.root);
            number(p);
        }
        k.families.push_back({name, std::to_string(specs.size()) + " definitions x auto-exit off or on x custom stream or none x every line of up to " + std::to_string(most) + " tokens of " + show(alphabet),
                              [=](Chooser& c)
                              {
                                  auto p = c.of(specs);
                                  const auto mode = c.pick(3);
                                  p.auto_exit = mode == 1;
                                  p.custom_stream = mode != 2;
                                  judge(c, p, pick_line(c, alphabet, most), mode ? Route::PARSE : Route::ITERATE, marked);
                              }});
    };
    for (auto s : styles())
    {
        auto z = zoo_flat(s);
        // a short prefix of a token must not pass for the token
        for (auto& t : z.alphabet)
            if (t == "v")
                t = "vagabond";
        family(s == Style::STANDARD ? "options" : s == Style::SLASH ? "slash options" : "dash options", z.specs, z.alphabet, q ? 2 : 3);
    }
    auto tree = zoo_tree();
    tree.alphabet.push_back("unknown");
    family("sub-commands", tree.specs, tree.alphabet, q ? 3 : 4);

    // Mandatory options and argument counts at every level.
    std::vector<ParserSpec> counts;
    for (unsigned i = 0; i < 64; ++i)
    {
        auto must = [](OptSpec x) { x.optional = false; return x; };
        const unsigned min = i & 3;
        auto leaf = cmd("leaf", {arg("L", min, i & 4 ? min + 1 : i & 8 ? MANY : std::max(min, 1u)), arg("M", 0, i & 4 ? 1 : 2)}, {must(opt({"-q", "--qq"}))});
        auto sub = cmd("sub", {}, {must(append({"-m", "--mm", "--mmm"}))}, {leaf});
        if (i & 16)
            sub.opts.clear();
        auto p = parser(root({}, {}, {sub, cmd("second", {arg("S", 2, 2)}, {opt({"-q"})})}));
        p.root.multi = i & 32;
        counts.push_back(p);
    }
    family("counts", counts, {"sub", "leaf", "second", "v", "-m1", "-q", "--qq"}, q ? 4 : 6);

    // Counts of arguments with larger numbers, in the program.
    std::vector<ParserSpec> many;
    for (unsigned a : {0u, 1u, 9u, 10u, 11u})
        for (unsigned b : {0u, 1u, 9u})
            for (bool open : {false, true})
            {
                auto p = parser(root({arg("A", a, a ? a : 1), arg("B", b, open ? MANY : b ? b : 1)}));
                mark(p.root);
                number(p);
                many.push_back(p);
            }
    k.families.push_back({"large counts", std::to_string(many.size()) + " definitions asking for up to 20 arguments x every number of values up to 22",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(many);
                              Strs line;
                              const auto n = c.pick(23);
                              for (uint32_t i = 0; i < n; ++i)
                                  line.push_back("word" + std::to_string(i));
                              judge(c, p, line, Route::PARSE, marked);
                          }});

    // Abbreviations and letter case: the message names what was typed.
    std::vector<ParserSpec> loose;
    for (int i = 0; i < 4; ++i)
    {
        auto p = parser(root({}, {append({"--alpha"}), append({"--alpine="}), append({"-B"}), opt({"--beta"})}));
        p.abbrev = i & 1;
        p.ci = i & 2;
        loose.push_back(p);
    }
    family("abbreviations", loose, {"--al", "--alp", "--alpha", "--ALPHA", "--alph", "--alpine", "--alpine=", "-b", "-B", "--bet=", "--beta=x", "--Gamma"}, q ? 2 : 3);

    // What follows the message: usage of the command concerned.
    enum Rest { DEFAULT, TITLE, USAGE, BOTH, ERROR_USAGE, ERROR_BOTH, NO_ERROR_USAGE, NO_USAGE, NO_TITLE, RESTS };
    k.families.push_back({"usage", "9 ways to set the usage texts of one of 4 nested commands x 4 commands concerned x 6 kinds of error x auto-exit off or on",
                          [=](Chooser& c)
                          {
                              const auto what = c.pick(RESTS);
                              const auto owner = c.pick(4), where = c.pick(4), kind = c.pick(6);
                              auto make = [&](int depth, std::vector<CmdSpec> cmds)
                              {
                                  auto x = cmd(std::vector<std::string>{"prog", "sub", "leaf", "twig"}[size_t(depth)], {},
                                               {opt({"-" + std::string(1, char('a' + depth)), "--opt" + std::to_string(depth)}, "V")}, std::move(cmds));
                                  if (x.cmds.empty())
                                      x.args = {arg("T", 2, 2)};
                                  else
                                      x.require = true;
                                  if (kind == 4)
                                  {
                                      auto m = opt({"-m", "--mandatory"}, "M");
                                      m.optional = int(where) != depth;
                                      x.opts.push_back(m);
                                  }
                                  auto t = [&](TextId id, const char* s) { x.texts[id] = s; };
                                  if (int(owner) == depth)
                                      switch (what)
                                      {
                                      case TITLE: t(TextId::USAGE_TITLE, "The title"); break;
                                      case USAGE: t(TextId::USAGE, "The usage\nin two lines"); break;
                                      case BOTH: t(TextId::USAGE_TITLE, "The title"); t(TextId::USAGE, "The usage"); break;
                                      case ERROR_USAGE: t(TextId::ERROR_USAGE, "Only this"); break;
                                      case ERROR_BOTH: t(TextId::ERROR_USAGE, "Only this"); t(TextId::USAGE_TITLE, "The title"); t(TextId::USAGE, "The usage"); break;
                                      case NO_ERROR_USAGE: t(TextId::ERROR_USAGE, ""); break;
                                      case NO_USAGE: t(TextId::USAGE, ""); break;
                                      case NO_TITLE: t(TextId::USAGE_TITLE, ""); break;
                                      }
                                  return x;
                              };
                              auto p = parser(make(0, {make(1, {make(2, {make(3, {})})})}));
                              p.gen_help = true;
                              p.auto_exit = c.flip();
                              number(p);
                              Strs line;
                              static const Strs names{"", "sub", "leaf", "twig"};
                              for (size_t i = 1; i <= where; ++i)
                                  line.push_back(names[i]);
                              std::string own = "-" + std::string(1, char('a' + where));
                              switch (kind)
                              {
                              case 0: line.push_back("--unknown"); break;
                              case 1: line.push_back(own); break;
                              case 2: // surplus
                                  for (auto* s : {"v", "w", "surplus"})
                                      line.push_back(s);
                                  break;
                              case 3: break; // nothing given
                              case 4: // mandatory option
                                  for (size_t i = where + 1; i <= 3; ++i)
                                      line.push_back(names[i]);
                                  for (auto* s : {"v", "w"})
                                      line.push_back(s);
                                  break;
                              case 5:
                                  line.push_back(own + "x");
                                  line.push_back("--opt" + std::to_string(where == 0 ? 3 : where - 1) + "=x"); // of another command
                                  break;
                              }
                              std::string full = "prog";
                              for (size_t i = 1; i <= where; ++i)
                                  full += " " + names[i];
                              // The usage as the help of the command shows it.
                              auto rest = [&](const std::string&) -> std::string
                              {
                                  const bool mine = owner == where;
                                  if (mine && (what == ERROR_USAGE || what == ERROR_BOTH))
                                      return "Only this\n";
                                  if (mine && (what == NO_ERROR_USAGE || what == NO_USAGE))
                                      return "";
                                  auto h = p;
                                  h.auto_exit = false;
                                  Strs l;
                                  for (size_t i = 1; i <= where; ++i)
                                      l.push_back(names[i]);
                                  l.push_back("--help");
                                  const auto help = real_run(h, l).custom;
                                  const auto sections = where == 3 ? help.find("\nARGUMENTS\n") : help.find("\nCOMMANDS\n");
                                  return help.substr(0, sections);
                              };
                              if (owner == where && what == ERROR_USAGE)
                                  c.outcome("custom error usage");
                              judge(c, p, line, Route::PARSE, rest);
                              const auto r = rest(full);
                              auto has = [&](const char* s) { return r.find(s) != r.npos; };
                              bool ok = true;
                              if (owner != where || what == DEFAULT)
                                  ok = r.rfind("USAGE\n", 0) == 0 && has((full + " ").c_str());
                              else if (what == TITLE)
                                  ok = r.rfind("The title\n", 0) == 0 && has((full + " ").c_str());
                              else if (what == USAGE)
                                  ok = r == "USAGE\nThe usage\nin two lines\n";
                              else if (what == BOTH)
                                  ok = r == "The title\nThe usage\n";
                              else if (what == NO_TITLE)
                                  ok = !has("USAGE") && has((full + " ").c_str());
                              if (!ok)
                                  c.fail("message:usage", describe(p) + "usage of " + full + " in the help is " + r);
                          }});

    // Errors raised by the client.
    std::vector<ParserSpec> clients;
    for (auto kind : {Act::ERROR, Act::ERROR_ARG})
        for (int i = 0; i < 16; ++i)
        {
            auto a = append({"-b", "--bb", "--third"}), f = opt({"-f"}), n = op({"-n", "--nn"}, Op::NONE);
            auto file = arg("FILE", 0, 2), name = arg("<odd name>", 0, 1);
            const std::vector<Act> acts{{kind, "", {"the client says no"}, 1}};
            auto p = parser(root({file}, {a, f, n}));
            auto& all = p.root;
            if (i & 1)
                p = parser(root({}, {a}, {cmd("sub", {}, {f}, {cmd("leaf", {file, name}, {a, f, n})})}));
            auto& at = i & 1 ? p.root.cmds[0].cmds[0] : all;
            if (i & 2)
                for (auto& x : at.opts)
                    x.acts = acts;
            if (i & 4)
                for (auto& x : at.args)
                    x.acts = acts;
            if (i & 8)
            {
                p.opt_cb = p.arg_cb = true;
                (i & 2 ? p.arg_acts : p.opt_acts) = acts;
            }
            clients.push_back(p);
        }
    family("callback errors", clients, {"sub", "leaf", "v", "-b1", "-f", "-n", "--third"}, q ? 4 : 5);

    // Errors raised through a result after the parse.
    enum Way { RESULT, VALUE, VALUE_OWN, VALUES, INDEX, INT, LONGS, DOUBLE, SPLIT, SPLITS, ITERATED, VIEW, VIEWS, WAYS };
    k.families.push_back({"result errors", "13 ways to raise an error through a result of 3 nested commands x 5 arguments and options, alone or linked, given once or twice x 3 offending texts x auto-exit off or on x custom error usage or not",
                          [=](Chooser& c)
                          {
                              const auto way = c.pick(WAYS), depth = c.pick(3), which = c.pick(5), text = c.pick(3);
                              const bool twice = c.flip(), linked = c.flip(), custom = c.flip(), exits = c.flip();
                              auto opts = [&]
                              {
                                  auto b = append({"-b", "--bb"});
                                  auto l = append({"--link"});
                                  if (linked)
                                      l.alias = which < 2 ? "-b" : "ARG";
                                  return std::vector<OptSpec>{b, append({"-c"}), l};
                              };
                              auto leaf = cmd("leaf", {arg("ARG", 0, 2)}, opts());
                              auto sub = cmd("sub", {}, {append({"-b", "--bb"})}, {leaf});
                              auto p = parser(root({}, {append({"-b", "--bb"})}, {sub}));
                              if (depth == 0)
                                  p = parser(root({arg("ARG", 0, 2)}, opts()));
                              else if (depth == 1)
                                  p = parser(root({}, {append({"-b"})}, {cmd("sub", {arg("ARG", 0, 2)}, opts())}));
                              p.auto_exit = exits;
                              mark(p.root);
                              if (!custom)
                                  for (auto* x : {&p.root})
                                      for (auto* y = x; y; y = y->cmds.empty() ? nullptr : &y->cmds[0])
                                          y->texts.erase(TextId::ERROR_USAGE);
                              number(p);
                              const std::string full = depth == 0 ? "prog" : depth == 1 ? "prog sub" : "prog sub leaf";
                              const std::string bad = Strs{"bad", "12x", "9999999999999999999999"}[text];
                              // flag given, name read, name of the source
                              static const std::vector<Strs> items{{"-b", "-b", "-b, --bb"}, {"--bb", "--bb", "-b, --bb"}, {"-c", "-c", "-c"}, {"--link", "--link", "--link"}, {"", "ARG", "ARG"}};
                              const Strs it = items[which];
                              std::vector<std::string_view> line;
                              if (depth > 0)
                                  line.push_back("sub");
                              if (depth > 1)
                                  line.push_back("leaf");
                              const bool plural = way == VALUES || way == INDEX || way == LONGS || way == SPLITS || way == ITERATED || way == VIEWS;
                              for (int n = 0; n < (twice && plural ? 2 : 1); ++n)
                              {
                                  if (!it[0].empty())
                                      line.push_back(it[0]);
                                  line.push_back(bad);
                              }
                              std::ostringstream stream;
                              std::string got;
                              {
                                  auto parser = make_parser(p);
                                  parser->stream(&stream);
                                  auto r = parser->parse(line);
                                  for (uint32_t i = 0; i < depth; ++i)
                                      r = r.subcommands().at(0);
                                  auto view = [&]() -> std::unique_ptr<argos::IArgumentView>
                                  {
                                      for (auto& x : r.all_arguments())
                                          if (x->name() == it[1])
                                              return std::move(x);
                                      for (auto& x : r.all_options())
                                          for (auto& f : x->flags())
                                              if (f == it[1])
                                                  return std::move(x);
                                      return {};
                                  };
                                  try
                                  {
                                      switch (Way(way))
                                      {
                                      case RESULT: r.error("client text");
                                      case VALUE: r.value(it[1]).error("client text");
                                      case VALUE_OWN: r.value(it[1]).error();
                                      case VALUES: r.values(it[1]).error("client text");
                                      case INDEX: (void)r.values(it[1]).value(7); break;
                                      case INT: (void)r.value(it[1]).as_int(); break;
                                      case LONGS: (void)r.values(it[1]).as_longs(); break;
                                      case DOUBLE: (void)(text == 2 ? r.value(it[1]).as_uint() : r.value(it[1]).as_double()); break;
                                      case SPLIT: (void)r.value(it[1]).split(',', 3); break;
                                      case SPLITS: (void)r.values(it[1]).split(',', 3); break;
                                      case ITERATED:
                                          for (auto v : r.values(it[1]))
                                              (void)v.as_llong();
                                          break;
                                      case VIEW: r.value(*view()).error("client text");
                                      case VIEWS: r.values(*view()).error("client text");
                                      case WAYS: break;
                                      }
                                      got = "nothing";
                                  }
                                  catch (ExitCalled& e)
                                  {
                                      got = "exit";
                                  }
                                  catch (argos::ArgosException&)
                                  {
                                      got = "exception";
                                  }
                              }
                              c.step();
                              c.state(hash64(describe(p) + bad + it[1], way));
                              const auto out = stream.str();
                              const auto context = describe(p) + "way " + std::to_string(way) + " reading " + it[1] + " given " + bad + (plural && twice ? " twice" : "") + "\noutput: " + out + "\n";
                              expect_same(c, "result error:ending", "ending", exits ? "exit" : "exception", got, context);
                              const auto eol = out.find('\n');
                              const auto first = out.substr(0, eol), rest = eol == out.npos ? "" : out.substr(eol + 1);
                              const bool client = way == RESULT || way == VALUE || way == VALUES || way == VIEW || way == VIEWS;
                              const auto prefix = full + ": " + (way == RESULT ? "" : it[2] + ": ");
                              if (client)
                                  expect_same(c, "result error:text", "message", prefix + "client text", first, context);
                              else if (first.rfind(prefix, 0) != 0)
                                  c.fail("result error:source", context + "expected a message starting with " + prefix);
                              else if (way != INDEX && first.find(bad, prefix.size()) == first.npos)
                                  c.fail("result error:culprit", context + "the offending text is not mentioned");
                              if (custom ? rest != "MARK(" + full + ")\n" : rest.rfind("USAGE\n  " + full + " ", 0) != 0)
                                  c.fail("result error:rest", context + "unexpected text after the message");
                          }});
    cross_families(k, q, o, [judge, marked](Chooser& c, const ParserSpec& spec, const Strs& line)
                   {
                       auto p = spec;
                       mark(p.root);
                       judge(c, p, line, Route::PARSE, marked);
                   });
    return k;
}
