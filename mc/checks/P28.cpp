// The order of the parts of a help text, the headings items are listed under
// and the texts clients replace.
#include "help.hpp"
using namespace mc;

namespace
{
    const std::vector<TextId>& text_ids()
    {
        static const std::vector<TextId> v{TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::ABOUT, TextId::SUBCOMMANDS_TITLE, TextId::ARGUMENTS_TITLE,
                                           TextId::OPTIONS_TITLE, TextId::FINAL_TEXT, TextId::ERROR_USAGE, TextId::HELP};
        return v;
    }

    OptSpec helped(OptSpec o)
    {
        o.help = "Help of " + o.flags[0] + ".";
        return o;
    }

    ArgSpec helped(ArgSpec a)
    {
        a.help = "Help of " + a.name + ".";
        return a;
    }

    // Every text of one command is unset, empty, a string or a function.
    void texts(Chooser& c, bool quick, bool sub)
    {
        const bool commands = c.flip();
        CmdSpec x = commands ? cmd("", {}, {helped(opt({"-f"}))}, {cmd("leaf"), cmd("twig")}) : cmd("", {helped(arg("ARG"))}, {helped(opt({"-f"}))});
        if (commands)
            x.cmds[0].texts[TextId::HELP] = "Help of leaf.";
        for (auto id : text_ids())
        {
            // quick: functions for every text or for none
            const auto k = c.pick(quick ? 3 : 4);
            if (k == 0)
                continue;
            x.texts[id] = k == 1 ? "" : "Text of " + to_string(id) + ".\nIts second line.";
            if (k == 3)
                x.text_functions.insert(id);
        }
        if (quick && c.flip())
            for (auto& [id, _] : x.texts)
                x.text_functions.insert(id);
        // Left open: whether an empty ABOUT is replaced by HELP.
        if (x.texts.count(TextId::ABOUT) && x.texts[TextId::ABOUT].empty() && x.texts.count(TextId::HELP) && !x.texts[TextId::HELP].empty())
            return;
        ParserSpec p;
        std::vector<size_t> path;
        if (sub)
        {
            x.name = "sub";
            p = parser(root({}, {}, {cmd("other"), x}));
            if (!c.flip())
                path = {1};
        }
        else
        {
            x.name = "prog";
            p = parser(x);
        }
        p.gen_help = true;
        number(p);
        check_help(c, p, path, HelpRoute::FUNCTION, "", "help:texts");
        c.outcome(sub ? path.empty() ? "parent" : "command" : "program");
    }

    // What happens to a definition, in order.
    enum class Do { CURRENT_NONE, CURRENT_1, CURRENT_2, OPTION, OPTION_1, OPTION_TITLED, HIDDEN, ITEM, ITEM_1, ITEM_TITLED, COPY, DOS };

    const char* names[] = {"current_section(\"\")", "current_section(\"One\")", "current_section(\"Two\")", "add option", "add option in One", "add option in OPTIONS",
                           "add hidden option in Two", "add item", "add item in One", "add item in OPTIONS", "copy_from"};

    // `target` is the parser, or a command
    template <class T>
    void play(T& target, bool commands, const std::vector<Do>& history, CmdSpec& expected, std::string& current)
    {
        int n = 0;
        auto add_option = [&](const std::string& section, Vis vis = Vis::NORMAL)
        {
            auto o = helped(opt({std::string("-") + char('a' + n++)}));
            o.section = section;
            o.visibility = vis;
            target.add(make_option(o));
            if (section.empty())
                o.section = current;
            expected.opts.push_back(o);
        };
        auto add_item = [&](const std::string& section)
        {
            const auto name = std::string(1, char('A' + n++));
            if (commands)
            {
                auto x = cmd(name);
                x.texts[TextId::HELP] = "Help of " + name + ".";
                x.section = section;
                target.add(make_command(x));
                if (section.empty())
                    x.section = current;
                expected.cmds.push_back(x);
            }
            else
            {
                auto x = helped(arg(name));
                x.section = section;
                target.add(make_argument(x));
                if (section.empty())
                    x.section = current;
                expected.args.push_back(x);
            }
        };
        auto set_current = [&](const std::string& s)
        {
            target.current_section(s);
            current = s;
        };
        for (auto d : history)
            switch (d)
            {
            case Do::CURRENT_NONE: set_current(""); break;
            case Do::CURRENT_1: set_current("One"); break;
            case Do::CURRENT_2: set_current("Two"); break;
            case Do::OPTION: add_option(""); break;
            case Do::OPTION_1: add_option("One"); break;
            case Do::OPTION_TITLED: add_option("OPTIONS"); break;
            case Do::HIDDEN: add_option("Two", Vis::USAGE); break;
            case Do::ITEM: add_item(""); break;
            case Do::ITEM_1: add_item("One"); break;
            case Do::ITEM_TITLED: add_item("OPTIONS"); break;
            case Do::COPY:
            {
                // the copies keep the headings they had in the source
                auto a = helped(opt({std::string("-") + char('a' + n++)})), b = helped(opt({std::string("-") + char('a' + n++)}));
                argos::Command source("source");
                source.current_section("Three");
                source.add(make_option(a));
                source.current_section("One");
                source.add(make_option(b));
                target.copy_from(source);
                a.section = "Three";
                b.section = "One";
                expected.opts.push_back(a);
                expected.opts.push_back(b);
                break;
            }
            default: break;
            }
    }

    void sections(Chooser& c, size_t most)
    {
        const bool commands = c.flip();
        const auto where = c.pick(3); // program, command, its copy
        const bool help = c.flip();
        std::vector<Do> history;
        const auto n = c.pick(uint32_t(most + 1));
        for (uint32_t i = 0; i < n; ++i)
            history.push_back(Do(c.pick(uint32_t(Do::DOS))));
        auto p = parser(root({}, {}));
        p.gen_help = help;
        if (help)
            p.version = "1";
        auto real = make_parser(p);
        std::ostringstream stream;
        real->stream(&stream);
        std::string current;
        std::vector<size_t> path;
        if (where == 0)
            play(*real, commands, history, p.root, current);
        else
        {
            auto x = cmd("sub");
            argos::Command made("sub");
            play(made, commands, history, x, current);
            if (where == 2)
            {
                argos::Command copy(made);
                real->add(std::move(copy));
            }
            else
                real->add(std::move(made));
            p.root.cmds.push_back(x);
            path = {0};
        }
        number(p);
        const auto expected = joined(HelpOracle{p, {}, current}.render(path));
        if (path.empty())
            real->write_help_text();
        else
            real->write_subcommand_help_text({"sub"});
        c.step(n + 1);
        c.trace();
        c.state(hash64(expected));
        if (expected != joined(canonical_lines(stream.str())))
        {
            std::string s = where == 0 ? "on the parser:" : where == 1 ? "on a command:" : "on a command that is then copied:";
            for (auto d : history)
                s += std::string(" ") + names[int(d)] + ";";
            c.fail("help:sections", s + "\nexpected (without layout):\n" + expected + "observed:\n" + stream.str());
        }
        c.outcome(std::to_string(where));
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P28";
    const bool q = quick(tier);
    const std::string states = q ? "unset, empty or set (all as strings or all as functions)" : "unset, empty, a string or a function";
    k.families.push_back({"texts", "every combination of the 10 texts of a program being " + states + " x arguments or sub-commands", [=](Chooser& c) { texts(c, q, false); }});
    k.families.push_back({"texts of a command", "every combination of the 10 texts of a sub-command being " + states + " x arguments or sub-commands x its own help or that of its parent", [=](Chooser& c) { texts(c, q, true); }});
    const size_t most = q ? 4 : 6;
    k.families.push_back({"sections", "every sequence of up to " + std::to_string(most) + " out of 11 steps (current_section, adding visible and hidden items with and without a section, copying contents) on the parser, a command, or a command copied afterwards x arguments or sub-commands x automatic options or none",
                          [=](Chooser& c) { sections(c, most); }});
    // every pair of headings the same or not, over arguments or commands and options
    k.families.push_back({"headings", std::string("every assignment of 5 headings (none, the three default ones and another) to up to ") + (q ? "4" : "5") + " items, arguments or commands and options x titles changed or not",
                          [=](Chooser& c)
                          {
                              static const Strs headings{"", "ARGUMENTS", "COMMANDS", "OPTIONS", "Other"};
                              const bool commands = c.flip();
                              auto p = parser(root({}));
                              const auto n = 1 + c.pick(q ? 4 : 5);
                              const auto first = c.pick(n + 1);
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto& h = headings[c.pick(5)];
                                  const auto name = std::string(1, char('A' + i));
                                  if (i >= first)
                                  {
                                      p.root.opts.push_back(helped(opt({"-" + name})));
                                      p.root.opts.back().section = h;
                                  }
                                  else if (commands)
                                  {
                                      p.root.cmds.push_back(cmd(name));
                                      p.root.cmds.back().section = h;
                                      p.root.cmds.back().texts[TextId::HELP] = "Help of " + name + ".";
                                  }
                                  else
                                  {
                                      p.root.args.push_back(helped(arg(name)));
                                      p.root.args.back().section = h;
                                  }
                              }
                              for (auto id : {TextId::ARGUMENTS_TITLE, TextId::SUBCOMMANDS_TITLE, TextId::OPTIONS_TITLE})
                                  if (const auto t = c.pick(3))
                                      p.root.texts[id] = t == 1 ? "Other" : "OPTIONS";
                              number(p);
                              check_help(c, p, {}, HelpRoute::FUNCTION, "", "help:headings");
                              c.outcome(commands ? "commands" : "arguments");
                          }});
    // Text functions give the text of the moment, and setting a text again
    // replaces it.
    k.families.push_back({"changing texts", "every sequence of up to " + std::string(q ? "4" : "5") + " steps (set a text as a string or a function, also through about() and help(), change what the functions return, write help) on a program and a command",
                          [=](Chooser& c)
                          {
                              const auto id = c.of(text_ids());
                              auto value = std::make_shared<std::string>("Zero.");
                              auto p = parser(root({}, {helped(opt({"-f"}))}));
                              const bool sub = c.flip();
                              argos::Command made("sub");
                              made.add(make_option(helped(opt({"-s"}))));
                              auto real = std::make_unique<argos::ArgumentParser>("prog");
                              std::ostringstream stream;
                              real->stream(&stream).line_width(1000).generate_help_option(false);
                              real->add(make_option(helped(opt({"-f"}))));
                              auto x = cmd("sub", {}, {helped(opt({"-s"}))});
                              std::string did;
                              bool function = false;
                              const auto n = c.pick(q ? 5 : 6);
                              std::optional<std::string> set;
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto what = c.pick(5);
                                  if (what == 0)
                                  {
                                      set = "Text " + std::to_string(i) + ".";
                                      function = false;
                                      sub ? (void)made.text(id, *set) : (void)real->text(id, *set);
                                      did += "text; ";
                                  }
                                  else if (what == 1)
                                  {
                                      set = *value;
                                      function = true;
                                      auto f = [value] { return *value; };
                                      sub ? (void)made.text(id, f) : (void)real->text(id, f);
                                      did += "text function; ";
                                  }
                                  else if (what == 2)
                                  {
                                      *value = "Changed " + std::to_string(i) + ".";
                                      if (function)
                                          set = *value;
                                      did += "change; ";
                                  }
                                  else if (what == 3)
                                  {
                                      if (id == TextId::ABOUT)
                                          sub ? (void)made.about("About.") : (void)real->about("About.");
                                      else if (id == TextId::HELP && sub)
                                          made.help("About.");
                                      else
                                          return;
                                      set = "About.";
                                      function = false;
                                      did += "about; ";
                                  }
                                  else
                                  {
                                      set = "";
                                      function = false;
                                      sub ? (void)made.text(id, "") : (void)real->text(id, "");
                                      did += "empty; ";
                                  }
                              }
                              if (set)
                                  (sub ? x : p.root).texts[id] = *set;
                              if (sub)
                              {
                                  p.root.cmds.push_back(x);
                                  real->add(std::move(made));
                              }
                              number(p);
                              for (int round = 0; round < 2; ++round)
                              {
                                  for (auto path : std::vector<std::vector<size_t>>{{}, {0}})
                                  {
                                      if (!sub && !path.empty())
                                          continue;
                                      stream.str("");
                                      const auto expected = joined(HelpOracle{p, {}, {}}.render(path));
                                      if (path.empty())
                                          real->write_help_text();
                                      else
                                          real->write_subcommand_help_text({"sub"});
                                      c.step();
                                      if (expected != joined(canonical_lines(stream.str())))
                                          c.fail("help:changing", to_string(id) + ": " + did + (round ? "; functions return something else" : "") + "\nexpected (without layout):\n" + expected + "observed:\n" + stream.str());
                                  }
                                  *value = "Later.";
                                  if (function)
                                      (sub ? x : p.root).texts[id] = *value;
                                  if (sub)
                                      p.root.cmds[0] = x;
                              }
                              c.trace();
                              c.state(hash64(to_string(id) + did, sub));
                              c.outcome(sub ? "command" : "program");
                          }});
    return k;
}
