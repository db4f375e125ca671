// Repeated, interleaved and outliving uses of one parser.
#include "common.hpp"
using namespace mc;

namespace
{
    struct Solo
    {
        std::vector<std::string> steps; // observation after each step, the last one the end
    };

    // A live iterator that is advanced one step at a time.
    struct Live
    {
        std::unique_ptr<argos::ArgumentIterator> it;
        std::unique_ptr<argos::ParsedArguments> root;
        RunLog log;
        std::unique_ptr<std::vector<std::string>> tokens;
        bool done = false;
        std::vector<std::string> seen;

        Live(const argos::ArgumentParser& parser, const Strs& line)
        {
            tokens = std::make_unique<std::vector<std::string>>(line);
            std::vector<std::string_view> sv(tokens->begin(), tokens->end());
            it = std::make_unique<argos::ArgumentIterator>(parser.make_iterator(std::move(sv)));
            root = std::make_unique<argos::ParsedArguments>(it->parsed_arguments());
        }

        void step(std::ostringstream& stream)
        {
            auto* old = g_log;
            g_log = &log;
            std::unique_ptr<argos::IArgumentView> view;
            std::string_view value;
            std::string s;
            try
            {
                if (it->next(view, value))
                    s = "step " + std::string(value) + (view ? " #" + std::to_string(view->id()) : "");
                else
                {
                    s = "end";
                    done = true;
                }
            }
            catch (argos::ArgosException& e)
            {
                s = std::string("exception ") + e.what();
                done = true;
            }
            catch (ExitCalled& e)
            {
                s = "exit " + std::to_string(e.code);
                done = true;
            }
            g_log = old;
            s += " " + text(observe(*root), true) + "\n" + text(log.events) + stream.str();
            stream.str("");
            seen.push_back(s);
        }
    };

    std::string help_of(const argos::ArgumentParser& parser, std::ostringstream& stream, const Strs& path)
    {
        stream.str("");
        std::string s;
        try
        {
            if (path.empty())
                parser.write_help_text();
            else
                parser.write_subcommand_help_text(path);
        }
        catch (argos::ArgosException& e)
        {
            s = std::string("exception ") + e.what();
        }
        s += stream.str();
        stream.str("");
        return s;
    }

    // A line that takes a different path at every position.
    std::vector<ParserSpec> specs()
    {
        std::vector<ParserSpec> v;
        auto flat = zoo_flat().specs;
        auto tree = zoo_tree().specs;
        for (int i : {1, 2, 5})
            v.push_back(flat[size_t(i)]);
        for (int i : {3, 8, 13, 14})
            v.push_back(tree[size_t(i)]);
        // callbacks that change values, insert arguments and fail
        auto p = parser(root({arg("A", 0, 1), arg("B", 0, MANY)}, {opt({"-f"}), append({"-b"}), opt({"-x"})}));
        p.root.opts[0].acts = {{Act::INSERT, "", {"-bins", "w"}, 1}, {Act::ASSIGN, "A", {"from-f"}, 9}};
        p.root.opts[1].acts = {{Act::VIEW_APPEND, "", {"more"}, 9}};
        p.root.opts[2].acts = {{Act::ERROR, "", {"no"}, 9}};
        p.root.args[1].acts = {{Act::CLEAR, "A", {}, 9}};
        p.opt_cb = p.arg_cb = true;
        v.push_back(p);
        // linked names, mandatory options, initial values
        auto a = append({"-b"});
        a.alias = "A";
        a.initial = "ini";
        auto m = opt({"-m"});
        m.optional = false;
        auto z = opt({"-f"});
        z.alias = "--zz";
        z.constant = "k";
        v.push_back(parser(root({arg("A", 0, 2)}, {a, m, z, append({"--zz"})})));
        for (auto& x : v)
        {
            x.gen_help = true;
            x.version = "3";
            x.line_width = 80;
            number(x);
        }
        return v;
    }

    const Strs& lines_for(const ParserSpec& p, std::vector<Strs>& out)
    {
        static const Strs none;
        if (p.root.cmds.empty())
            out = {{}, {"-f", "v"}, {"-bv", "-b", "w", "-f"}, {"v", "-m", "w", "x"}, {"--nope"}, {"-f", "-h", "v"}, {"-x", "v"}, {"--version"}, {"-m", "v", "--zz", "q"}};
        else
            out = {{}, {"sub", "v"}, {"-bv", "other", "leaf", "-f", "v"}, {"sub", "v", "-e", "sub", "-b", "w"}, {"nope"}, {"other", "-x"}, {"sub", "-b1", "v", "v", "other", "twig", "v"}, {"-h"}, {"other", "leaf", "-zz"}};
        return none;
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P17";
    const bool q = quick(tier);
    const auto all = specs();
    const int uses = q ? 2 : 3;
    k.families.push_back({"sequences", std::to_string(all.size()) + " definitions x every sequence of " + std::to_string(uses) + " earlier uses (const parse of 9 lines by two routes, const iteration in full or abandoned after two steps, help of the program and of a sub-command) followed by every line or help: the last use compared with the same use of a fresh parser",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(all);
                              std::vector<Strs> lines;
                              lines_for(p, lines);
                              std::ostringstream stream, fresh_stream;
                              auto parser = make_parser(p);
                              parser->stream(&stream);
                              const auto& cp = *parser;
                              std::string history;
                              std::vector<std::unique_ptr<Live>> abandoned;
                              // what one use shows
                              auto use = [&](const argos::ArgumentParser& x, std::ostringstream& s, uint32_t kind, const Strs& line, int limit) -> std::string
                              {
                                  c.step();
                                  s.str("");
                                  if (kind == 4)
                                      return help_of(x, s, {});
                                  if (kind == 5)
                                      return help_of(x, s, {p.root.cmds.empty() ? "sub" : "other"});
                                  if (kind == 2 || kind == 3)
                                  {
                                      auto live = std::make_unique<Live>(x, line);
                                      for (int i = 0; i < limit && !live->done; ++i)
                                          live->step(s);
                                      std::string r;
                                      for (auto& t : live->seen)
                                          r += t + "\n";
                                      if (!live->done)
                                          abandoned.push_back(std::move(live));
                                      return r;
                                  }
                                  auto& y = const_cast<argos::ArgumentParser&>(x); // the route decides constness
                                  auto o = real_run_on(y, p, line, kind ? Route::ARGV_CONST : Route::PARSE_CONST);
                                  o.custom = s.str();
                                  s.str("");
                                  return ending(o);
                              };
                              const auto n = c.pick(uint32_t(uses + 1));
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto kind = c.pick(6);
                                  const Strs line = kind < 4 ? c.of(lines) : Strs();
                                  history += "use " + std::to_string(kind) + " " + show(line) + "; ";
                                  use(cp, stream, kind, line, kind == 2 ? 99 : 2);
                              }
                              const auto kind = std::vector<uint32_t>{0, 2, 4, 5}[c.pick(4)];
                              const Strs line = kind < 4 ? c.of(lines) : Strs();
                              const auto got = use(cp, stream, kind, line, 99);
                              auto fresh = make_parser(p);
                              fresh->stream(&fresh_stream);
                              const auto want = use(*fresh, fresh_stream, kind, line, 99);
                              c.trace();
                              c.state(describe(p) + history);
                              expect_same(c, "sequence", "last use differs from that of a fresh parser", want, got, describe(p) + "history: " + history + "\nlast use " + std::to_string(kind) + " " + show(line) + "\n");
                              c.outcome(kind < 4 ? got.substr(0, got.find(' ')) : "help");
                          }});
    k.families.push_back({"interleaved", std::to_string(all.size()) + " definitions x every unordered pair of lines x every interleaving of the steps of two iterators" + (q ? std::string() : " and optionally a parse at any point") + ": each iterator's observations compared with those of the iterator alone",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(all);
                              std::vector<Strs> lines;
                              lines_for(p, lines);
                              const auto ia = c.pick(uint32_t(lines.size()));
                              const auto ib = ia + c.pick(uint32_t(lines.size() - ia)); // pairs are symmetric
                              const auto& la = lines[ia];
                              const auto& lb = lines[ib];
                              std::ostringstream stream;
                              static std::map<std::pair<const ParserSpec*, uint32_t>, std::vector<std::string>> cache;
                              auto solo = [&](const Strs& l)
                              {
                                  auto parser = make_parser(p);
                                  parser->stream(&stream);
                                  Live x(*parser, l);
                                  while (!x.done)
                                      x.step(stream);
                                  return x.seen;
                              };
                              auto& wa = cache[{&p, ia}];
                              if (wa.empty())
                                  wa = solo(la);
                              auto& wb = cache[{&p, ib}];
                              if (wb.empty())
                                  wb = solo(lb);
                              auto parser = make_parser(p);
                              parser->stream(&stream);
                              const uint32_t drop = c.pick(2); // the parser is gone before the first step
                              Live a(*parser, la);
                              Live b(*parser, lb);
                              if (drop)
                                  parser.reset();
                              std::string order;
                              while (!a.done || !b.done)
                              {
                                  const bool pick_b = a.done || (!b.done && c.flip());
                                  order += pick_b ? 'b' : 'a';
                                  (pick_b ? b : a).step(stream);
                                  c.step();
                                  if (!q && parser && order.size() == 2 && c.flip())
                                  {
                                      order += 'p';
                                      real_run_on(*parser, p, lines[2], Route::PARSE_CONST);
                                      stream.str("");
                                  }
                              }
                              c.trace();
                              c.state(order + show(la) + show(lb) + describe(p));
                              const auto context = describe(p) + "a: " + show(la) + "\nb: " + show(lb) + "\norder " + order + "\n";
                              expect_same(c, "interleaved", "iterator a differs from running alone", show(wa), show(a.seen), context);
                              expect_same(c, "interleaved", "iterator b differs from running alone", show(wb), show(b.seen), context);
                          }});
    k.families.push_back({"outlive", std::to_string(all.size()) + " definitions x every line x every entry point x every order of destroying the parser, the iterator, the command line, the root result and running another parse, while results, sub-results, values, value lists and value iterators are kept",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(all);
                              std::vector<Strs> lines;
                              lines_for(p, lines);
                              const auto& line = c.of(lines);
                              std::ostringstream stream;
                              auto parser = make_parser(p);
                              parser->stream(&stream);
                              auto tokens = std::make_unique<Strs>(line);
                              std::vector<std::string_view> sv(tokens->begin(), tokens->end());
                              std::unique_ptr<argos::ParsedArguments> root;
                              std::unique_ptr<argos::ArgumentIterator> it;
                              const auto route = c.pick(4);
                              try
                              {
                                  if (route < 2)
                                      root = std::make_unique<argos::ParsedArguments>(route ? std::as_const(*parser).parse(std::move(sv)) : parser->parse(std::move(sv)));
                                  else
                                  {
                                      it = std::make_unique<argos::ArgumentIterator>(route == 3 ? std::as_const(*parser).make_iterator(std::move(sv)) : parser->make_iterator(std::move(sv)));
                                      root = std::make_unique<argos::ParsedArguments>(it->parsed_arguments());
                                      std::unique_ptr<argos::IArgumentView> view;
                                      std::string_view value;
                                      while (it->next(view, value))
                                          ;
                                  }
                              }
                              catch (argos::ArgosException&)
                              {
                                  if (!root)
                                      return;
                              }
                              const auto before = text(observe(*root), true);
                              // everything derived from the result
                              struct Kept
                              {
                                  argos::ArgumentValues values;
                                  argos::ArgumentValueIterator begin, end;
                                  std::vector<std::string> texts;
                                  std::vector<int> sources;
                              };
                              std::vector<Kept> kept;
                              std::vector<std::pair<argos::ParsedArguments, std::string>> results;
                              std::function<void(const argos::ParsedArguments&)> collect = [&](const argos::ParsedArguments& r)
                              {
                                  results.emplace_back(r, text(observe(r), true));
                                  auto keep = [&](argos::ArgumentValues vs)
                                  {
                                      Kept x{vs, {}, {}, {}, {}};
                                      for (auto& v : vs.values())
                                      {
                                          x.texts.push_back(v.as_string());
                                          auto s = v.argument();
                                          x.sources.push_back(s ? s->id() : 0);
                                      }
                                      kept.push_back(std::move(x));
                                      kept.back().begin = kept.back().values.begin();
                                      kept.back().end = kept.back().values.end();
                                  };
                                  for (auto& a : r.all_arguments())
                                      keep(r.values(*a));
                                  for (auto& o : r.all_options())
                                      if (o->operation() != Op::NONE)
                                          keep(r.values(*o));
                                  for (auto& s : r.subcommands())
                                      collect(s);
                              };
                              collect(*root);
                              std::vector<int> left{0, 1, 2, 3, 4};
                              std::string order;
                              while (!left.empty())
                              {
                                  const auto i = c.pick(uint32_t(left.size()));
                                  order += std::to_string(left[i]);
                                  switch (left[i])
                                  {
                                  case 0: parser.reset(); break;
                                  case 1: it.reset(); break;
                                  case 2: tokens.reset(); break;
                                  case 3: root.reset(); break;
                                  case 4:
                                      if (parser && (route == 1 || route == 3))
                                          real_run_on(*parser, p, lines[2], Route::PARSE_CONST);
                                      break;
                                  }
                                  left.erase(left.begin() + i);
                                  c.step();
                              }
                              const auto context = describe(p) + "line " + show(line) + " route " + std::to_string(route) + " order " + order + "\n";
                              for (auto& [r, want] : results)
                                  expect_same(c, "outlive:result", "result changed", want, text(observe(r), true), context);
                              expect_same(c, "outlive:result", "root result changed", before, results[0].second, context);
                              for (auto& x : kept)
                              {
                                  std::vector<std::string> got, iterated;
                                  std::vector<int> sources;
                                  for (auto& v : x.values.values())
                                  {
                                      got.push_back(v.as_string());
                                      auto s = v.argument();
                                      sources.push_back(s ? s->id() : 0);
                                  }
                                  expect_same(c, "outlive:values", "values changed", show(x.texts), show(got), context);
                                  if (sources != x.sources)
                                      c.fail("outlive:sources", context + "sources changed");
                                  for (size_t i = 0; i < x.texts.size(); ++i)
                                      if (x.values[i].as_string() != x.texts[i])
                                          c.fail("outlive:index", context + "indexed value changed");
                              }
                              c.trace();
                              c.state(context);
                          }});
    // Whatever was parsed before, by the model.
    k.families.push_back({"pairs", std::to_string(all.size()) + " definitions x every pair of lines, the second compared with the model",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(all);
                              std::vector<Strs> lines;
                              lines_for(p, lines);
                              std::ostringstream stream;
                              auto parser = make_parser(p);
                              parser->stream(&stream);
                              real_run_on(*parser, p, c.of(lines), Route::PARSE_CONST);
                              stream.str("");
                              const auto& line = c.of(lines);
                              const auto m = model_run(p, line);
                              c.step(m.steps_taken);
                              if (m.undefined)
                                  return;
                              auto r = real_run_on(*parser, p, line, c.flip() ? Route::PARSE : Route::PARSE_CONST);
                              c.trace();
                              compare_with(c, p, line, m, r, {.what = "pair"});
                          }});
    // Other parsers are none of its business.
    k.families.push_back({"neighbours", std::to_string(all.size()) + " definitions x every line iterated x another parser (the same definition with another version, name, texts, width, exit codes and identifiers, or one of the other definitions) that is defined, used (parse or iteration of 9 lines, help, an iteration that is left unfinished) and destroyed or kept, before the iterator is made or after any step: each step compared with the iterator alone",
                          [=](Chooser& c)
                          {
                              const auto mine = c.pick(uint32_t(all.size()));
                              const auto& p = all[mine];
                              auto other = c.of(all);
                              other.version = "99";
                              other.root.name = "other program";
                              other.root.texts[TextId::INITIAL_TEXT] = "something else";
                              other.root.texts[TextId::ERROR_USAGE] = "use it differently";
                              other.line_width = 40;
                              other.error_code = 7, other.normal_code = 8;
                              for (auto& o : other.root.opts)
                                  o.id = 0, o.initial = o.op == Op::NONE || o.initial.empty() ? "" : "other " + o.initial;
                              number(other);
                              std::vector<Strs> lines, others;
                              lines_for(p, lines);
                              lines_for(other, others);
                              const auto which = c.pick(uint32_t(lines.size()));
                              static std::map<std::pair<uint32_t, uint32_t>, std::vector<std::string>> cache;
                              std::ostringstream stream, elsewhere;
                              auto& want = cache[{mine, which}];
                              if (want.empty())
                              {
                                  auto parser = make_parser(p);
                                  parser->stream(&stream);
                                  Live x(*parser, lines[which]);
                                  while (!x.done)
                                      x.step(stream);
                                  want = x.seen;
                              }
                              const auto when = c.pick(uint32_t(want.size() + 1));
                              const auto use = c.pick(4);
                              const Strs line = use == 2 ? Strs() : c.of(others);
                              const bool keep = c.flip();
                              std::unique_ptr<argos::ArgumentParser> neighbour;
                              std::unique_ptr<Live> unfinished;
                              auto disturb = [&]
                              {
                                  auto* old = g_log;
                                  RunLog log;
                                  g_log = &log;
                                  neighbour = make_parser(other);
                                  neighbour->stream(&elsewhere);
                                  if (use == 0)
                                      real_run_on(*neighbour, other, line, Route::PARSE_CONST);
                                  else if (use == 1)
                                      real_run_on(*neighbour, other, line, Route::ITERATE_CONST);
                                  else if (use == 2)
                                      help_of(*neighbour, elsewhere, {});
                                  else
                                  {
                                      unfinished = std::make_unique<Live>(*neighbour, line);
                                      unfinished->step(elsewhere);
                                  }
                                  if (!keep)
                                      unfinished.reset(), neighbour.reset();
                                  g_log = old;
                                  c.step();
                              };
                              if (when == 0)
                                  disturb();
                              auto parser = make_parser(p);
                              parser->stream(&stream);
                              Live x(*parser, lines[which]);
                              for (uint32_t i = 1; !x.done; ++i)
                              {
                                  if (i == when)
                                      disturb();
                                  x.step(stream);
                                  c.step();
                              }
                              const auto context = describe(p) + "line " + show(lines[which]) + ", disturbed at " + std::to_string(when) + " by use " + std::to_string(use) + " of\n" + describe(other) + show(line) + "\n";
                              c.trace();
                              c.state(hash64(context));
                              expect_same(c, "neighbours", "the iteration differs from one without another parser", show(want), show(x.seen), context);
                          }});
    return k;
}
