// Copies of definitions.
#include "copies.hpp"
using namespace mc;
using namespace copies;

namespace
{
    // --------------------------------------------------- single definitions
    enum Way { CONSTRUCT, ASSIGN, MOVE_CONSTRUCT, MOVE_ASSIGN_, TWICE, ORIGINAL, SELF, SWAPPED, WAYS };
    const char* way_names[] = {"copy-constructed", "copy-assigned over another", "move-constructed", "move-assigned over another", "a copy of a copy", "the original of a changed copy", "assigned to itself", "swapped with another"};

    void change(argos::Option& o)
    {
        o.argument("CHANGED").initial_value("changed").constant("changed").alias("changed").help("changed").section("changed").id(9999).visibility(Vis::HIDDEN)
            .operation(Op::CLEAR).type(Type::EXIT).mandatory(true).callback([](argos::OptionCallbackArguments) { throw std::runtime_error("changed"); });
    }

    void change(argos::Argument& a)
    {
        a.name("CHANGED").count(3, 7).alias("changed").help("changed").section("changed").id(9999).visibility(Vis::HIDDEN).mandatory(true).callback([](argos::ArgumentCallbackArguments) { throw std::runtime_error("changed"); });
    }

    void change(argos::Command& x)
    {
        x.name("CHANGED").help("changed").section("changed").id(9999).visibility(Vis::HIDDEN).allow_multiple_subcommands(true).require_subcommand(true).current_section("changed").add(argos::Option{"--changed"})
            .about("changed").text(TextId::FINAL_TEXT, "changed").text(TextId::USAGE, "changed");
    }

    template <typename T>
    T through(T x, Way way, T other)
    {
        switch (way)
        {
        case CONSTRUCT:
        {
            T y(x);
            change(x);
            return y;
        }
        case ASSIGN:
        {
            change(other);
            other = x;
            change(x);
            return other;
        }
        case MOVE_CONSTRUCT:
        {
            T y(std::move(x));
            return y;
        }
        case MOVE_ASSIGN_:
            change(other);
            other = std::move(x);
            return other;
        case TWICE:
        {
            auto y = std::make_unique<T>(x);
            T z(*y);
            change(*y);
            y.reset();
            return z;
        }
        case ORIGINAL:
        {
            T y(x);
            change(y);
            argos::Command elsewhere("elsewhere");
            elsewhere.current_section("elsewhere").add(T(x)).add(std::move(y));
            return x;
        }
        case SELF:
        {
            auto& y = x;
            x = y;
            return x;
        }
        case SWAPPED:
            change(other);
            std::swap(x, other);
            change(x);
            return other;
        case WAYS: break;
        }
        return x;
    }

    void check_single(Chooser& c, ParserSpec p, const std::function<void(argos::ArgumentParser&)>& add, Way way)
    {
        auto bare = p;
        bare.root.args.clear();
        bare.root.opts.clear();
        bare.root.cmds.clear();
        auto real = make_parser(bare);
        add(*real);
        c.step();
        c.trace();
        const auto want = expected(p), got = seen(*real, p);
        if (want != got)
            c.fail("copies:single", std::string(way_names[way]) + " definition of\n" + describe(p) + difference(want, got));
        c.state(hash64(want, way));
        c.outcome(way_names[way]);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P36";
    const bool q = quick(tier);
    const std::string ways = std::to_string(WAYS) + " ways (copied, assigned, moved, copied twice, left after a copy was changed and used, assigned to itself, swapped)";
    k.families.push_back({"options", "every valid combination of one or two flags, argument, constant, initial value, alias, 4 operations, 6 types, mandatory, id, callback, help text (none, text, function), section, visibility x " + ways,
                          [=](Chooser& c)
                          {
                              const auto way = Way(c.pick(WAYS));
                              OptSpec o;
                              o.flags = c.flip() ? Strs{"-f", "--flag"} : Strs{"-f"};
                              o.argument = c.flip() ? "VALUE" : "";
                              o.constant = c.flip() ? "con" : "";
                              o.op = std::vector<Op>{Op::NONE, Op::ASSIGN, Op::APPEND, Op::CLEAR}[c.pick(4)];
                              o.alias = c.flip() ? "k" : "";
                              o.optional = !c.flip();
                              o.type = std::vector<Type>{Type::NORMAL, Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION}[c.pick(6)];
                              if (!valid_option(o, Style::STANDARD) || (o.op == Op::NONE && !o.optional) || (o.op == Op::CLEAR && !(o.argument + o.constant).empty()))
                                  return;
                              o.initial = o.op != Op::NONE && c.flip() ? "ini" : "";
                              o.id = 7;
                              if (q)
                              {
                                  // the rest is independent of parsing: all at once, or one at a time
                                  const auto set = c.pick(6);
                                  o.callback = set != 1;
                                  if (set == 0 || set == 2)
                                      o.help = "Help.";
                                  o.text_function = set == 3;
                                  if (set == 3)
                                      o.help = "Help by function.";
                                  if (set == 0 || set == 4)
                                      o.section = "Section";
                                  if (set == 0 || set == 5)
                                      o.visibility = set ? Vis::HIDDEN : Vis::TEXT;
                              }
                              else
                              {
                                  o.callback = c.flip();
                                  const auto h = c.pick(3);
                                  o.help = h ? "Help." : "";
                                  o.text_function = h == 2;
                                  o.section = c.flip() ? "Section" : "";
                                  o.visibility = std::vector<Vis>{Vis::NORMAL, Vis::HIDDEN, Vis::TEXT, Vis::USAGE}[c.pick(4)];
                              }
                              auto p = parser(root({}, {o}));
                              p.gen_help = true;
                              p.custom_stream = false;
                              check_single(c, p, [&](argos::ArgumentParser& r) { r.add(through(make_option(o), way, argos::Option("--other"))); }, way);
                          }});
    k.families.push_back({"arguments", "every combination of count (5), alias, id, callback, help text (none, text, function), section and visibility (4) x " + ways,
                          [=](Chooser& c)
                          {
                              const auto way = Way(c.pick(WAYS));
                              static const std::vector<std::pair<unsigned, unsigned>> counts{{0, 1}, {1, 1}, {2, 3}, {0, MANY}, {1, MANY}};
                              const auto [lo, hi] = c.of(counts);
                              auto a = arg("ARG", lo, hi);
                              a.alias = c.flip() ? "k" : "";
                              a.id = c.flip() ? 7 : -3;
                              a.callback = c.flip();
                              const auto h = c.pick(3);
                              a.help = h ? "Help." : "";
                              a.text_function = h == 2;
                              a.section = c.flip() ? "Section" : "";
                              a.visibility = std::vector<Vis>{Vis::NORMAL, Vis::HIDDEN, Vis::TEXT, Vis::USAGE}[c.pick(4)];
                              auto p = parser(root({a}, {}));
                              p.gen_help = true;
                              p.custom_stream = false;
                              check_single(c, p, [&](argos::ArgumentParser& r) { r.add(through(make_argument(a), way, argos::Argument("OTHER"))); }, way);
                          }});
    const std::vector<TextId> ids{TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::ABOUT, TextId::SUBCOMMANDS_TITLE, TextId::ARGUMENTS_TITLE,
                                  TextId::OPTIONS_TITLE, TextId::FINAL_TEXT, TextId::ERROR_USAGE, TextId::HELP};
    k.families.push_back({"commands", "commands with any one of the 10 texts (text or function), all or none x contents (arguments, commands two levels deep, none) x multi x required sub-commands (unset, yes, no) x section, current section, visibility, id x "
                          + ways + " x contents taken over by copy_from (by a command, by the parser) or not x the way nested definitions were made (" + std::to_string(CmdSpec::WAYS) + ")",
                          [=](Chooser& c)
                          {
                              const auto way = Way(c.pick(WAYS));
                              const auto over = c.pick(2); // taken over by another command
                              const auto contents = c.pick(3);
                              int id = 1;
                              auto x = contents == 2 ? cmd("") : rich(int(contents), id);
                              x.texts.clear();
                              x.text_functions.clear();
                              x.name = "sub";
                              const auto t = c.pick(uint32_t(ids.size() * 2 + 2));
                              if (t == 0)
                                  for (auto i : ids)
                                      x.texts[i] = "Text of " + to_string(i);
                              else if (t > 1)
                              {
                                  x.texts[ids[(t - 2) / 2]] = "Text of it";
                                  if (t % 2)
                                      x.text_functions.insert(ids[(t - 2) / 2]);
                              }
                              x.multi = c.flip();
                              const auto req = over ? 2 : c.pick(3);
                              if (req < 2)
                                  x.require = req == 1;
                              const auto looks = c.pick(q ? 4 : 16);
                              const auto bits = q ? std::vector<uint32_t>{0, 15, 5, 10}[looks] : looks;
                              x.section = bits & 1 ? "Section" : "";
                              x.current = bits & 2 ? "Current" : "";
                              x.visibility = bits & 4 ? Vis::USAGE : Vis::NORMAL;
                              x.id = bits & 8 ? 77 : -7;
                              auto p = program(x);
                              auto nested = x;
                              if (!nested.cmds.empty())
                                  for (auto& s : nested.cmds)
                                      s.way = CmdSpec::Way(c.pick(q ? 2 : CmdSpec::WAYS) * (q ? CmdSpec::COPY_ADD : 1));
                              for (auto& s : nested.cmds)
                                  if (s.way == CmdSpec::COPY_FROM)
                                      return; // explored at this level
                              auto one = through(make_command(nested), way, argos::Command("other"));
                              if (over)
                              {
                                  argos::Command to("sub");
                                  to.id(x.id).visibility(x.visibility).section(x.section).current_section(x.current);
                                  to.copy_from(one);
                                  change(one);
                                  one = std::move(to);
                              }
                              check_single(c, p, [&](argos::ArgumentParser& r) { r.add(std::move(one)); }, way);
                          }});
    const uint32_t depth = 3;
    k.families.push_back({"histories", "5 pairs of commands (with arguments, with commands two levels deep, empty) and a parser x every sequence of up to " + std::to_string(depth)
                          + " operations (12 changes of either, copy, assign, move, take over contents, add, add a copy, swap and self-assign in either direction; 8 operations on the parser): each of the three is afterwards what value semantics make of it (views, help, results of every option, argument and sub-command)",
                          [=](Chooser& c) { history(c, depth); }});
    k.assumptions = {"Whether copy_from takes over that sub-commands are required is left open (it is no content): definitions for which this makes a difference are not judged.",
                     "Copying a command's contents into itself and copying a moved-from definition are left open."};
    return k;
}
