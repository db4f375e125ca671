// Reading values: every accessor against the list of stored values.
#include "common.hpp"
#include "Argos/ParsedArgumentsBuilder.hpp"
using namespace mc;

namespace
{
    struct Stored
    {
        std::string text;
        int src; // custom id
    };

    int source(const std::unique_ptr<argos::IArgumentView>& v) { return v ? v->argument_id() == argos::ArgumentId(0) && v->id() == 0 ? 0 : v->id() : 0; }

    bool is_number(const std::string& t) { return t == "1" || t == "-23" || t == "0"; }

    struct Accessors
    {
        Chooser& c;
        std::string context;
        std::ostringstream& stream;
        bool exits;

        [[noreturn]] void fail(const std::string& sig, const std::string& what) { c.fail("access:" + sig, context + what); }

        void expect(bool ok, const std::string& sig)
        {
            c.step();
            if (!ok)
                fail(sig, sig + " disagrees with the stored values");
        }

        // Ends as a reported error.
        template <typename F>
        void reported(const std::string& sig, F&& f)
        {
            c.step();
            stream.str({});
            std::string got = "nothing happened";
            try
            {
                f();
            }
            catch (argos::ArgosException&)
            {
                got = "exception";
            }
            catch (ExitCalled& e)
            {
                got = "exit " + std::to_string(e.code);
            }
            if (got != (exits ? "exit 64" : "exception"))
                fail(sig, sig + ": expected a reported error, observed: " + got);
            if (stream.str().empty())
                fail(sig, sig + ": no message");
            stream.str({});
        }

        template <typename F>
        void throws(const std::string& sig, F&& f)
        {
            c.step();
            try
            {
                f();
            }
            catch (argos::ArgosException&)
            {
                return;
            }
            fail(sig, sig + ": expected an exception");
        }

        void one(const argos::ArgumentValue& v, const Stored* s, const std::string& where)
        {
            expect(bool(v) == bool(s), where + " bool");
            expect(v.value().has_value() == bool(s), where + " value presence");
            if (!s)
            {
                expect(v.as_string() == "" && v.as_string("dflt") == "dflt", where + " as_string default");
                expect(v.as_int() == 0 && v.as_int(-7) == -7 && v.as_int(5, 2) == 5, where + " as_int default");
                expect(v.as_uint() == 0 && v.as_uint(7) == 7, where + " as_uint default");
                expect(v.as_long() == 0 && v.as_long(-7) == -7, where + " as_long default");
                expect(v.as_ulong() == 0 && v.as_ulong(7) == 7, where + " as_ulong default");
                expect(v.as_llong() == 0 && v.as_llong(-7) == -7, where + " as_llong default");
                expect(v.as_ullong() == 0 && v.as_ullong(7) == 7, where + " as_ullong default");
                expect(v.as_float() == 0 && v.as_float(1.5f) == 1.5f, where + " as_float default");
                expect(v.as_double() == 0 && v.as_double(2.5) == 2.5, where + " as_double default");
                expect(!v.as_bool() && v.as_bool(true) && !v.as_bool(false), where + " as_bool default");
                expect(v.split(',').empty() && v.split_n(',', 0).size() == 0, where + " split of nothing");
                return;
            }
            const auto& t = s->text;
            expect(*v.value() == t && v.as_string() == t && v.as_string("dflt") == t, where + " text");
            const bool truth = !t.empty() && t != "0" && t != "false";
            expect(v.as_bool() == truth && v.as_bool(!truth) == truth, where + " as_bool");
            if (is_number(t))
            {
                const int n = t == "1" ? 1 : t == "0" ? 0 : -23;
                expect(v.as_int(9) == n && v.as_long(9) == n && v.as_llong(9) == n && v.as_double(9) == n && v.as_float(9) == float(n), where + " number");
                if (n == 1)
                    expect(v.as_uint(9) == 1 && v.as_ulong(9) == 1 && v.as_ullong(9) == 1, where + " unsigned number");
            }
            else
            {
                reported(where + " as_int of text", [&] { (void)v.as_int(9); });
                reported(where + " as_double of text", [&] { (void)v.as_double(9); });
            }
            const auto copy = v;
            auto other = v;
            other = copy;
            expect(other.value() == v.value(), where + " copy");
            expect(source(v.argument()) == s->src, where + " source");
        }

        void many(const argos::ArgumentValues& vs, const std::vector<Stored>& want)
        {
            const auto n = want.size();
            expect(vs.size() == n, "size");
            expect(vs.empty() == (n == 0), "empty");
            expect(bool(vs) == (n != 0), "bool");
            Strs texts;
            for (auto& w : want)
                texts.push_back(w.text);
            const auto raw = vs.raw_values();
            expect(Strs(raw.begin(), raw.end()) == texts, "raw_values");
            const Strs d{"d", "e"};
            expect(vs.as_strings() == texts && vs.as_strings(d) == (n ? texts : d), "as_strings");
            const auto list = vs.values();
            expect(list.size() == n, "values size");
            for (size_t i = 0; i < n; ++i)
            {
                one(list[i], &want[i], "values element");
                one(vs.value(i), &want[i], "value(index)");
                one(vs[i], &want[i], "operator[]");
            }
            for (size_t i : {n, n + 1, n + 7, ~size_t(0)})
                if (n)
                {
                    reported("value past the end", [&] { (void)vs.value(i); });
                    reported("index past the end", [&] { (void)vs[i]; });
                }
                else
                {
                    one(vs.value(i), nullptr, "value of nothing");
                    one(vs[i], nullptr, "index of nothing");
                }
            size_t i = 0;
            for (const auto v : vs)
            {
                expect(i < n, "iteration length");
                one(v, &want[i++], "iteration");
            }
            expect(i == n, "iteration length");
            i = 0;
            for (auto it = vs.begin(); it != vs.end(); ++i)
            {
                expect(!(it == vs.end()), "iterator comparison");
                const auto old = it++;
                expect(i < n, "iteration length");
                one(*old, &want[i], "postfix iteration");
                expect(old != it && !(old == it), "iterator comparison");
            }
            expect(i == n, "iteration length");
            expect((vs.begin() == vs.end()) == (n == 0), "begin and end");
            bool numbers = true;
            std::vector<int> ints;
            for (auto& t : texts)
                if (is_number(t))
                    ints.push_back(t == "1" ? 1 : t == "0" ? 0 : -23);
                else
                    numbers = false;
            if (n == 0)
            {
                expect(vs.as_ints().empty() && vs.as_ints({4, 5}) == std::vector<int>{4, 5}, "as_ints default");
                expect(vs.as_uints({4}) == std::vector<unsigned>{4} && vs.as_longs({4}) == std::vector<long>{4} && vs.as_ulongs({4}) == std::vector<unsigned long>{4}, "list defaults");
                expect(vs.as_llongs({4}) == std::vector<long long>{4} && vs.as_ullongs({4}) == std::vector<unsigned long long>{4}, "list defaults");
                expect(vs.as_floats({4}) == std::vector<float>{4} && vs.as_doubles({4}) == std::vector<double>{4}, "list defaults");
                expect(vs.split(',').empty() && vs.split_n(',', 1).empty(), "split of nothing");
            }
            else if (numbers)
            {
                expect(vs.as_ints({4, 5}) == ints, "as_ints");
                expect(vs.as_longs() == std::vector<long>(ints.begin(), ints.end()), "as_longs");
                expect(vs.as_llongs() == std::vector<long long>(ints.begin(), ints.end()), "as_llongs");
                expect(vs.as_floats() == std::vector<float>(ints.begin(), ints.end()), "as_floats");
                expect(vs.as_doubles() == std::vector<double>(ints.begin(), ints.end()), "as_doubles");
            }
            else
            {
                reported("as_ints of text", [&] { (void)vs.as_ints({4}); });
                reported("as_floats of text", [&] { (void)vs.as_floats({4}); });
            }
            expect(Strs(raw.begin(), raw.end()) == texts && vs.size() == n, "values after reading");
        }

        // T: ParsedArguments or ParsedArgumentsBuilder; K: name or view
        template <typename T, typename K>
        void all(const T& t, const K& key, const std::vector<Stored>& want)
        {
            expect(t.has(key) == !want.empty(), "has");
            many(t.values(key), want);
            if (want.size() > 1)
                throws("value of several", [&] { (void)t.value(key); });
            else
                one(t.value(key), want.empty() ? nullptr : &want[0], "value");
        }
    };

    const char* const NAMES[] = {"-b", "--bb", "-a", "--link", "-n", "--num=", "--unset", "ARG", "REST", "alias"};
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P25";
    const bool q = quick(tier);
    // ids: -b/--bb 1, -a 2 (assigns to -b), --link 3 (appends to ARG),
    // -n/--num= 4, --unset 5, ARG 6, REST 7 (alias "alias")
    auto definition = [](int depth)
    {
        auto b = append({"-b", "--bb"}), a = opt({"-a"}, "A"), l = append({"--link"}), n = opt({"-n", "--num="}, "N"), u = append({"--unset"});
        a.alias = "-b";
        l.alias = "ARG";
        int id = 0;
        for (auto* o : {&b, &a, &l, &n, &u})
            o->id = ++id;
        auto arg1 = arg("ARG", 0, 2), rest = arg("REST", 0, MANY);
        rest.alias = "alias";
        arg1.id = 6;
        rest.id = 7;
        auto trigger = op({"-T"}, Op::NONE);
        trigger.id = 8;
        auto inner = cmd("inner", {arg1, rest}, {b, a, l, n, u, trigger});
        auto p = parser(root({arg1, rest}, {b, a, l, n, u, trigger}));
        if (depth)
        {
            auto pb = append({"-b"});
            auto pu = append({"--unset"});
            pb.initial = "parent";
            pu.initial = "parent";
            p = parser(root({}, {pb, pu}, {inner}));
        }
        number(p);
        return p;
    };
    struct Given
    {
        std::vector<Stored> of[10];
    };
    // What each name holds after the line.
    auto stored = [](const Strs& line)
    {
        std::vector<Stored> b, num, first, rest;
        size_t positional = 0;
        for (size_t i = 0; i < line.size(); ++i)
        {
            const auto& t = line[i];
            auto value = [&] { return line[++i]; };
            if (t == "-b")
                b.push_back({value(), 1});
            else if (t == "-a")
                b = {{value(), 2}};
            else if (t == "--link")
                first.push_back({value(), 3});
            else if (t.rfind("--num=", 0) == 0)
                num = {{t.substr(6), 4}};
            else if (t != "-T")
                (positional++ < 2 ? first : rest).push_back({t, positional <= 2 ? 6 : 7});
        }
        Given g;
        for (int i : {0, 1, 2})
            g.of[i] = b;
        g.of[3] = g.of[7] = first;
        g.of[4] = g.of[5] = num;
        g.of[8] = g.of[9] = rest;
        return g;
    };
    // A line made of pieces, each of which gives one value.
    const std::vector<Strs> pieces{{"-b", "1"}, {"-b", "text"}, {"-b", ""}, {"-a", "0"}, {"--link", "-23"}, {"--num=1"}, {"--num=false"}, {"1"}, {"x"}, {""}};
    const size_t most = q ? 4 : 5;
    auto pick_pieces = [=](Chooser& c)
    {
        Strs line;
        const auto n = c.pick(uint32_t(most + 1));
        for (uint32_t i = 0; i < n; ++i)
        {
            const auto& x = pieces[c.pick(uint32_t(pieces.size()))];
            line.insert(line.end(), x.begin(), x.end());
        }
        return line;
    };
    const std::vector<ParserSpec> defs{definition(0), definition(1)};
    enum Access { RESULT, RESULT_VIEW, BUILDER, BUILDER_VIEW, ITERATOR, ACCESSES };
    k.families.push_back({"accessors", "the program or a sub-command x every line of up to " + std::to_string(most) + " of " + std::to_string(pieces.size()) + " ways to give a value x 10 names x reading through results, callbacks and iterators, by name or by view, with every accessor x auto-exit off or on",
                          [=](Chooser& c)
                          {
                              const auto depth = c.pick(2);
                              auto p = defs[depth];
                              const auto access = Access(c.pick(ACCESSES));
                              p.auto_exit = c.flip();
                              const auto given = pick_pieces(c);
                              auto line = given;
                              if (depth)
                                  line.insert(line.begin(), "inner");
                              const auto want = stored(given);
                              std::ostringstream stream;
                              Accessors x{c, "command line " + show(line) + (depth ? " in a sub-command" : "") + ", way " + std::to_string(access) + (p.auto_exit ? ", auto-exit" : "") + "\n", stream, p.auto_exit};
                              const auto context = x.context;
                              auto views = [&](const argos::ParsedArguments& r)
                              {
                                  std::vector<std::pair<std::string, std::unique_ptr<argos::IArgumentView>>> v;
                                  for (auto& a : r.all_arguments())
                                  {
                                      auto n = a->name();
                                      v.emplace_back(n, std::move(a));
                                  }
                                  for (auto& o : r.all_options())
                                  {
                                      auto n = o->flags()[0];
                                      v.emplace_back(n, std::move(o));
                                  }
                                  return v;
                              };
                              auto read = [&](const auto& t, const argos::ParsedArguments* by_view)
                              {
                                  if (!by_view)
                                  {
                                      for (int i = 0; i < 10; ++i)
                                      {
                                          x.context = context + "reading " + NAMES[i] + ": ";
                                          x.all(t, NAMES[i], want.of[i]);
                                      }
                                      return;
                                  }
                                  for (auto& [n, v] : views(*by_view))
                                      for (int i = 0; i < 10; ++i)
                                          if (n == NAMES[i])
                                          {
                                              x.context = context + "reading the view of " + NAMES[i] + ": ";
                                              x.all(t, *v, want.of[i]);
                                          }
                              };
                              c.trace();
                              c.state(hash64(show(line), access));
                              c.outcome(std::to_string(want.of[0].size()) + "," + std::to_string(want.of[3].size()) + "," + std::to_string(want.of[8].size()));
                              if (access == ITERATOR)
                              {
                                  auto parser = make_parser(p);
                                  parser->stream(&stream);
                                  std::vector<std::string_view> l(line.begin(), line.end());
                                  auto it = parser->make_iterator(l);
                                  std::unique_ptr<argos::IArgumentView> view;
                                  std::string_view value;
                                  while (it.next(view, value))
                                  {
                                  }
                                  // The iterator gives access to the whole result.
                                  auto whole = it.parsed_arguments();
                                  auto commands = whole.subcommands();
                                  if (depth)
                                  {
                                      if (commands.size() != 1)
                                          c.fail("access:iterator", context + ": no result for the sub-command");
                                      read(commands.front(), nullptr);
                                  }
                                  else
                                      read(whole, nullptr);
                                  return;
                              }
                              // The trigger's callback reads while the parse goes on.
                              auto inside = [&](argos::CallbackArguments<argos::OptionView>& args)
                              {
                                  auto b = args.builder;
                                  read(b, nullptr);
                              };
                              // Views stay valid as long as the parser that
                              // defined them.
                              std::optional<argos::ParsedArguments> earlier;
                              auto inside_views = [&](argos::CallbackArguments<argos::OptionView>& args)
                              {
                                  auto b = args.builder;
                                  read(b, &*earlier);
                              };
                              argos::ArgumentParser parser("prog");
                              parser.auto_exit(p.auto_exit).stream(&stream).generate_help_option(false);
                              auto fill = [&](auto& to)
                              {
                                  const auto& s = depth ? p.root.cmds[0] : p.root;
                                  for (auto& a : s.args)
                                      to.add(make_argument(a));
                                  for (auto& o : s.opts)
                                  {
                                      auto option = make_option(o);
                                      if (o.flags[0] == "-T" && access == BUILDER)
                                          option.callback(inside);
                                      else if (o.flags[0] == "-T" && access == BUILDER_VIEW)
                                          option.callback([&](argos::CallbackArguments<argos::OptionView>& a) { if (earlier) inside_views(a); });
                                      to.add(std::move(option));
                                  }
                              };
                              if (depth)
                              {
                                  argos::Command inner("inner");
                                  fill(inner);
                                  parser.add(std::move(inner));
                                  for (auto& o : p.root.opts)
                                      parser.add(make_option(o));
                              }
                              else
                                  fill(parser);
                              auto run = [&](Strs l)
                              {
                                  std::vector<std::string_view> v(l.begin(), l.end());
                                  auto r = std::as_const(parser).parse(v);
                                  return depth ? r.subcommands().at(0) : r;
                              };
                              if (access == BUILDER || access == BUILDER_VIEW)
                              {
                                  if (access == BUILDER_VIEW)
                                      earlier = run(line);
                                  auto l = line;
                                  l.push_back("-T");
                                  run(l);
                                  return;
                              }
                              const auto r = run(line);
                              read(r, access == RESULT_VIEW ? &r : nullptr);
                          }});

    // Names: known ones read and write, all others are exceptions.
    enum Use { HAS, VALUE, VALUES, B_HAS, B_VALUE, B_VALUES, B_ASSIGN, B_APPEND, B_CLEAR, USES };
    k.families.push_back({"names", std::string("every name of up to ") + (q ? "4" : "5") + " characters of -abAB=x and a set of likely ones x 9 reading and writing functions x the program, its sub-command or a sibling",
                          [=](Chooser& c)
                          {
                              const auto where = c.pick(3);
                              const auto use = Use(c.pick(USES));
                              std::string name;
                              if (c.flip())
                              {
                                  static const Strs likely{"-a", "--ab", "--ab=", "--a", "--abb", "AB", "ab", "A", "-B", "--BA", "-x", "xa", "-b", "--bb", "BA", "prog", "sub", "sibling", "--help", "-h", "--version", "V", "", "-", "--", "--ab=V", "-ab", "ABB", "-A", "B", "x"};
                                  name = c.of(likely);
                              }
                              else
                                  name = pick_string(c, "-abAB=x", q ? 4 : 5);
                              std::set<std::string> known;
                              argos::ParsedArguments const* result = nullptr;
                              (void)result;
                              static std::ostringstream stream;
                              argos::ArgumentParser parser("prog");
                              parser.auto_exit(false).stream(&stream);
                              std::string outcome = "not reached";
                              auto act = [&](argos::CallbackArguments<argos::OptionView>& args)
                              {
                                  auto b = args.builder;
                                  try
                                  {
                                      switch (use)
                                      {
                                      case B_HAS: (void)b.has(name); break;
                                      case B_VALUE: (void)b.value(name); break;
                                      case B_VALUES: (void)b.values(name); break;
                                      case B_ASSIGN: b.assign(name, "v"); break;
                                      case B_APPEND: b.append(name, "v"); break;
                                      case B_CLEAR: b.clear(name); break;
                                      default: break;
                                      }
                                      outcome = "accepted";
                                  }
                                  catch (argos::ArgosException&)
                                  {
                                      outcome = "exception";
                                  }
                              };
                              auto trigger = [&] { return argos::Option{"--trigger"}.constant("t").callback(act); };
                              using argos::Option;
                              using argos::Argument;
                              if (where == 0)
                              {
                                  parser.add(Option{"-a", "--ab"}.argument("V")).add(Option{"-B"}.alias("AB")).add(Argument("AB").count(0, 2)).add(Argument("xa").alias("BA").optional(true)).add(trigger());
                                  known = {"-a", "--ab", "-B", "AB", "xa", "BA", "--trigger"};
                              }
                              else
                              {
                                  argos::Command sub("sub"), sibling("sibling");
                                  sub.add(Option{"-b", "--bb"}.argument("V")).add(Argument("BA").optional(true)).add(trigger());
                                  sibling.add(Option{"-x"}).add(Argument("A").optional(true)).add(trigger());
                                  parser.add(Option{"-a", "--ab"}.argument("V")).add(std::move(sub)).add(std::move(sibling));
                                  known = where == 1 ? std::set<std::string>{"-b", "--bb", "BA", "--trigger"} : std::set<std::string>{"-x", "A", "--trigger"};
                              }
                              std::vector<std::string_view> line;
                              if (where)
                                  line.push_back(where == 1 ? "sub" : "sibling");
                              line.push_back("--trigger");
                              auto r = parser.parse(line);
                              if (where)
                                  r = r.subcommands().at(0);
                              if (use < B_HAS)
                                  try
                                  {
                                      if (use == HAS)
                                          (void)r.has(name);
                                      else if (use == VALUE)
                                          (void)r.value(name);
                                      else
                                          (void)r.values(name);
                                      outcome = "accepted";
                                  }
                                  catch (argos::ArgosException&)
                                  {
                                      outcome = "exception";
                                  }
                              c.step();
                              c.state(hash64(name, uint64_t(use)));
                              // the library's own help option may be readable
                              if (name == "-h" || name == "--help")
                                  return;
                              c.outcome(outcome);
                              expect_same(c, "access:name", "function " + std::to_string(use) + " with name " + show(name) + " in definition " + std::to_string(where), known.count(name) ? "accepted" : "exception", outcome, "");
                          }});
    return k;
}
