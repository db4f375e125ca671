// Auto-exit and streams.
#include "common.hpp"
#include "Argos/ParsedArgumentsBuilder.hpp"
using namespace mc;

namespace
{
    void number_titles(CmdSpec& c, const std::string& parent, std::map<TextId, std::string> extra = {})
    {
        const auto full = parent.empty() ? c.name : parent + " " + c.name;
        c.texts[TextId::INITIAL_TEXT] = "HELP-OF(" + full + ")";
        for (auto& x : c.cmds)
            number_titles(x, full);
    }

    // Which stream got what.
    void streams(Chooser& c, const ParserSpec& p, const Strs& line, const Outcome& m, const Outcome& r)
    {
        const auto& out = p.custom_stream ? r.custom : r.out;
        const auto& err = p.custom_stream ? r.custom : r.err;
        const auto context = "command line " + show(line) + (p.custom_stream ? ", custom stream\n" : "\n") + describe(p)
                             + "custom stream: " + r.custom + "\nstdout: " + r.out + "\nstderr: " + r.err + "\n";
        auto must_be_empty = [&](const std::string& s, const char* what)
        {
            if (!s.empty())
                c.fail("stream", context + "unexpected output on " + what);
        };
        const bool help = !m.help_for.empty(), error = !m.errors.empty(), version = m.version_shown;
        if (p.custom_stream || !(help || version))
            must_be_empty(r.out, "standard output");
        if (p.custom_stream || !error)
            must_be_empty(r.err, "standard error");
        if (!p.custom_stream || !(help || version || error))
            must_be_empty(r.custom, "the custom stream");
        if (help && out.rfind("HELP-OF(" + m.help_for + ")\n", 0) != 0)
            c.fail("stream:help", context + "expected the help of " + m.help_for);
        if (version && out != p.root.name + " " + p.version + "\n")
            c.fail("stream:version", context + "expected the version");
        if (error)
        {
            bool found = false;
            for (auto& e : m.errors)
                found = found || err.rfind(e.command + ": ", 0) == 0;
            if (!found)
                c.fail("stream:error", context + "expected an error message of " + m.errors[0].command);
        }
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P21";
    const bool q = quick(tier);
    CompareOpts o{.what = "auto-exit"};
    struct Exits
    {
        int error, normal;
    };
    const std::vector<Exits> exits{{64, 0}, {0, 1}, {255, 254}};
    auto family = [&](std::string name, std::vector<ParserSpec> specs, Strs alphabet, size_t most, std::vector<Route> routes)
    {
        for (auto& p : specs)
        {
            number_titles(p.root, "");
            p.line_width = 80;
            number(p);
        }
        k.families.push_back({name, std::to_string(specs.size()) + " definitions x auto-exit off or on with 3 pairs of exit codes x custom stream or none x " + std::to_string(routes.size()) + " entry points x every line of up to " + std::to_string(most) + " tokens of " + show(alphabet),
                              [=](Chooser& c)
                              {
                                  auto p = c.of(specs);
                                  const auto mode = c.pick(4);
                                  p.auto_exit = mode > 0;
                                  if (mode)
                                  {
                                      p.error_code = exits[mode - 1].error;
                                      p.normal_code = exits[mode - 1].normal;
                                  }
                                  p.custom_stream = c.flip();
                                  const auto route = c.of(routes);
                                  const auto line = pick_line(c, alphabet, most);
                                  const auto m = model_run(p, line);
                                  c.step(m.steps_taken);
                                  if (m.undefined)
                                      return;
                                  const auto r = real_run(p, line, route);
                                  c.trace();
                                  c.state(hash64(show(line) + describe(p)));
                                  compare_with(c, p, line, m, r, o);
                                  streams(c, p, line, m, r);
                                  c.outcome(std::string(m.end == Outcome::EXITED ? "exit " + std::to_string(m.exit_code) : m.failed ? "failure" : "return") + (m.help_for.empty() ? "" : " help") + (m.version_shown ? " version" : ""));
                              }});
    };
    auto flat = zoo_flat();
    auto tree = zoo_tree();
    const std::vector<Route> both{Route::PARSE, Route::ITERATE};
    family("options", flat.specs, flat.alphabet, q ? 2 : 3, both);
    family("sub-commands", tree.specs, {"sub", "other", "leaf", "v", "-b", "-e", "-s", "-x", "-q", "-h", "-zz"}, q ? 3 : 4, {Route::PARSE});
    // Callbacks due before the exit run, later ones do not.
    std::vector<ParserSpec> cbs;
    for (auto t : {Type::HELP, Type::EXIT, Type::STOP})
        for (int i = 0; i < 4; ++i)
        {
            auto e = typed({"-x"}, t, i & 1 ? "V" : "");
            auto p = parser(root({arg("A", 0, 1)}, {e, opt({"-f"}), append({"-b"})}));
            p.opt_cb = p.arg_cb = i & 2;
            p.root.opts[1].acts = {{Act::ERROR, "", {"client says no"}, 1}};
            p.root.args[0].acts = {{Act::ERROR_ARG, "", {"client says no"}, 1}};
            cbs.push_back(p);
            cbs.back().root.opts[0].acts = {{Act::INSERT, "", {"v"}, 1}, {Act::ASSIGN, "-b", {"late"}, 1}};
        }
    family("callbacks", cbs, {"v", "-x", "-f", "-b", "-xf", "-bz"}, q ? 3 : 4, both);

    // Errors raised by the client after a successful parse.
    enum Where { RESULT, VALUE, VALUE_MESSAGE, VALUES, INDEX, INT, INTS, DOUBLE, UNSIGNED, SPLIT, SPLIT_EACH, WHERES };
    k.families.push_back({"client errors", "11 ways to raise an error through a result, in the program, a sub-command or its sub-command x auto-exit off or on with 3 pairs of exit codes x custom stream or none x 10 other settings x the parser or a constant one",
                          [=](Chooser& c)
                          {
                              auto sub = cmd("sub", {}, {append({"-b"}), opt({"-n"}, "N")}, {cmd("leaf", {}, {append({"-b"}), opt({"-n"}, "N")})});
                              sub.require = false;
                              auto p = parser(root({}, {append({"-b"}), opt({"-n"}, "N")}, {sub}));
                              p.root.require = false;
                              const auto depth = c.pick(3);
                              const auto mode = c.pick(4);
                              p.auto_exit = mode > 0;
                              if (mode)
                              {
                                  p.error_code = exits[mode - 1].error;
                                  p.normal_code = exits[mode - 1].normal;
                              }
                              p.custom_stream = c.flip();
                              // settings of no importance
                              const auto frill = c.pick(10);
                              p.ign_opt = frill == 1;
                              p.ign_arg = frill == 2;
                              p.ci = frill == 3;
                              p.abbrev = frill == 4;
                              p.gen_help = frill == 5;
                              p.version = frill == 6 ? "1" : "";
                              p.root.multi = frill == 7;
                              p.root.cmds[0].multi = frill == 8;
                              p.opt_cb = p.arg_cb = frill == 9;
                              number(p);
                              const auto where = Where(c.pick(WHERES));
                              const bool copy = c.flip();
                              std::ostringstream custom;
                              auto parser = make_parser(p);
                              if (p.custom_stream)
                                  parser->stream(&custom);
                              std::vector<std::string_view> line;
                              if (depth > 0)
                                  line.push_back("sub");
                              if (depth > 1)
                                  line.push_back("leaf");
                              for (auto* t : {"-b", "x,y", "-bz", "-nabc"})
                                  line.push_back(t);
                              std::string full = depth == 0 ? "prog" : depth == 1 ? "prog sub" : "prog sub leaf";
                              std::string got, out, err;
                              {
                                  Capture cap;
                                  auto root = copy ? std::as_const(*parser).parse(line) : parser->parse(line);
                                  auto r = root;
                                  for (uint32_t i = 0; i < depth; ++i)
                                      r = r.subcommands().at(0);
                                  try
                                  {
                                      switch (where)
                                      {
                                      case RESULT: r.error("client message");
                                      case VALUE: r.value("-n").error();
                                      case VALUE_MESSAGE: r.value("-n").error("client message");
                                      case VALUES: r.values("-b").error("client message");
                                      case INDEX: (void)r.values("-b")[2]; break;
                                      case INT: (void)r.value("-n").as_int(); break;
                                      case INTS: (void)r.values("-b").as_ints(); break;
                                      case DOUBLE: (void)r.value("-n").as_double(); break;
                                      case UNSIGNED: (void)r.value("-n").as_ullong(); break;
                                      case SPLIT: (void)r.value("-n").split(',', 2); break;
                                      case SPLIT_EACH: (void)r.values("-b").split_n(',', 3); break;
                                      case WHERES: break;
                                      }
                                      got = "nothing happened";
                                  }
                                  catch (ExitCalled& e)
                                  {
                                      got = "exit " + std::to_string(e.code);
                                  }
                                  catch (argos::ArgosException&)
                                  {
                                      got = "exception";
                                  }
                                  out = cap.out();
                                  err = cap.err();
                              }
                              c.trace();
                              c.step();
                              const auto context = describe(p) + "way " + std::to_string(where) + " in " + full + "\nstdout: " + out + "\nstderr: " + err + "\ncustom: " + custom.str() + "\n";
                              expect_same(c, "client error:end", "ending", p.auto_exit ? "exit " + std::to_string(p.error_code) : "exception", got, context);
                              const auto& there = p.custom_stream ? custom.str() : err;
                              if (there.rfind(full + ": ", 0) != 0 || (where < INDEX && where != VALUE && there.find("client message") == there.npos))
                                  c.fail("client error:message", context + "no message");
                              if (there.find(full + ": ", 1) != there.npos)
                                  c.fail("client error:message", context + "more than one message");
                              if (!out.empty() || (p.custom_stream ? err : custom.str()).size())
                                  c.fail("client error:stream", context + "output on another stream");
                              c.outcome(got);
                          }});
    // Nothing configured.
    k.families.push_back({"defaults", "a parser with nothing but its definitions x every line of up to 3 tokens of help, exit, stop and bad options",
                          [=](Chooser& c)
                          {
                              auto p = parser(root({arg("A", 0, 1)}, {typed({"-x"}, Type::EXIT), typed({"-s"}, Type::STOP), opt({"-f"})}));
                              number_titles(p.root, "");
                              p.auto_exit = p.gen_help = true;
                              p.custom_stream = false;
                              number(p);
                              const auto line = pick_line(c, {"v", "-h", "--help", "-x", "-s", "-f", "-z"}, 3);
                              const auto m = model_run(p, line);
                              argos::ArgumentParser parser("prog");
                              parser.text(TextId::INITIAL_TEXT, "HELP-OF(prog)");
                              for (auto& a : p.root.args)
                                  parser.add(make_argument(a));
                              for (auto& x : p.root.opts)
                                  parser.add(make_option(x));
                              const auto r = real_run_on(parser, p, line, Route::PARSE);
                              c.trace();
                              c.step(m.steps_taken);
                              compare_with(c, p, line, m, r, {.events = false, .what = "defaults"});
                              streams(c, p, line, m, r);
                          }});
    cross_families(k, q, o, [o](Chooser& c, const ParserSpec& spec, const Strs& line)
                   {
                       auto p = spec;
                       number_titles(p.root, "");
                       p.line_width = 80;
                       const auto m = model_run(p, line);
                       c.step(m.steps_taken);
                       if (m.undefined)
                           return;
                       const auto r = real_run(p, line);
                       c.trace();
                       compare_with(c, p, line, m, r, o);
                       streams(c, p, line, m, r);
                   });
    return k;
}
