// The width of output.
#include "common.hpp"
#include <cerrno>
using namespace mc;

namespace
{
    constexpr unsigned FALLBACK = 80, LEAST = 32;

    unsigned effective(int columns)
    {
        return columns <= 0 ? FALLBACK : std::max(LEAST, unsigned(columns));
    }

    // A text of words of 1 to 13 letters.
    std::string prose(size_t words)
    {
        std::string s;
        uint32_t x = 12345;
        for (size_t i = 0; i < words; ++i)
        {
            x = x * 1103515245u + 12345u;
            s += (i ? " " : "") + std::string(1 + (x >> 16) % 13, char('a' + i % 26));
        }
        return s;
    }

    struct Reset
    {
        Reset() { console() = {}; }
        ~Reset() { console() = {}; }
    };

    enum Output { HELP, SUB_HELP, HELP_OPTION, SUB_HELP_OPTION, ERROR, SUB_ERROR, CLIENT_ERROR, VALUE_ERROR, VERSION, OUTPUTS };
    const char* output_names[] = {"write_help_text", "write_subcommand_help_text", "--help", "sub --help", "an error", "an error in a sub-command", "error() of a result",
                                  "error() of a value", "--version"};

    struct Program
    {
        std::ostringstream s;
        argos::ArgumentParser p{"program"};
        bool to_stream;

        explicit Program(size_t words, unsigned width = 0, bool to_stream = true) : to_stream(to_stream)
        {
            using namespace argos;
            const auto text = prose(words);
            p.auto_exit(false).version("1.2 " + text);
            if (to_stream)
                p.stream(&s);
            p.about("About " + text);
            for (int i = 0; i < 4; ++i)
                p.add(Option(std::string("--option-") + char('a' + i)).argument("VALUE").help(std::string(size_t(i + 1), 'h') + " " + text.substr(0, 200)));
            Command sub("sub");
            sub.help("Sub " + text.substr(0, 150));
            for (int i = 0; i < 6; ++i)
                sub.add(Option("-" + std::string(1, char('a' + i)), "--sub-option-" + std::string(size_t(i + 1), char('a' + i))).help(text.substr(size_t(i), 120)));
            sub.add(Argument("FILES").count(0, 9).help(text.substr(7, 300)));
            p.add(std::move(sub)).add(Command("other").help("Other."));
            if (width)
                p.line_width(width);
        }

        // What one more output writes.
        std::string write(Output o, const std::string& word)
        {
            using namespace argos;
            const auto& cp = p;
            Capture cap;
            s.str("");
            auto parse = [&](std::vector<std::string_view> line)
            {
                return cp.parse(std::move(line));
            };
            switch (o)
            {
            case HELP: p.write_help_text(); break;
            case SUB_HELP: p.write_subcommand_help_text({"sub"}); break;
            case HELP_OPTION: parse({"--help"}); break;
            case SUB_HELP_OPTION: parse({"sub", "--help"}); break;
            case ERROR: parse({word}); break;
            case SUB_ERROR: parse({"sub", word}); break;
            case CLIENT_ERROR:
            case VALUE_ERROR:
            {
                auto r = parse({"sub", "v"});
                try
                {
                    if (o == CLIENT_ERROR)
                        r.error(word + " " + prose(40));
                    else
                        r.subcommands()[0].value("FILES").error(word + " " + prose(40));
                }
                catch (ArgosException&)
                {
                }
                break;
            }
            case VERSION: parse({"--version"}); break;
            default: break;
            }
            return to_stream ? s.str() + (cap.out() + cap.err()) : cap.out() + cap.err();
        }
    };

    const std::string BAD_WORD = "--un known option " + prose(30);

    // Every line takes as many of the words as it can (none is wider than a
    // line; the general rules are those of P29).
    void check_layout(Chooser& c, const std::string& text, unsigned width, const std::string& output, const std::string& context)
    {
        std::string expected;
        size_t column = 0;
        for (size_t i = 0; i < text.size();)
        {
            const auto e = std::min(text.find(' ', i), text.size());
            if (column && column + 1 + (e - i) <= width)
            {
                expected += ' ';
                ++column;
            }
            else if (column)
            {
                expected += '\n';
                column = 0;
            }
            expected.append(text, i, e - i);
            column += e - i;
            i = e + 1;
        }
        expected += '\n';
        if (expected != output)
            c.fail("width:layout", context + "not laid out to a width of " + std::to_string(width) + "\nexpected:\n" + expected + "\nobserved:\n" + output);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P37";
    const bool q = quick(tier);
    // The answers: every one, or (quick) every one up to a bound and some of
    // the larger ones.
    std::vector<int> answers, all;
    for (int i = -1; i < 65536; ++i)
    {
        bool edge = i > 65500 || i % 251 == 0;
        for (int b = 8; b < 17; ++b)
            edge = edge || std::abs(i - (1 << b)) < 3;
        all.push_back(i);
        if (!q || i <= 1100 || edge)
            answers.push_back(i);
    }
    const std::string which = q ? std::to_string(answers.size()) + " answers of the console (none, every one up to 1100, the powers of two and their neighbours, every 251st up to 65535)" : "every answer of the console (none, 0..65535)";
    k.families.push_back({"answers", "every answer of the console (none, 0..65535) x " + std::to_string(OUTPUTS) + " outputs (help and errors of the program and of a sub-command, on request and by function, errors of clients, the version): equal to the output with that width configured",
                          [=](Chooser& c)
                          {
                              const auto columns = all[c.pick(uint32_t(all.size()))];
                              const auto o = Output(c.pick(OUTPUTS));
                              Reset r;
                              console().columns = columns;
                              Program a(80);
                              const auto observed = a.write(o, BAD_WORD);
                              console() = {};
                              Program b(80, effective(columns));
                              const auto expected = b.write(o, BAD_WORD);
                              c.step(2);
                              c.trace();
                              c.state(hash64(observed, uint64_t(columns + 2)));
                              c.outcome(std::to_string(observed.empty()) + output_names[o]);
                              expect_same(c, "width:answer", std::string(output_names[o]) + " with console answer " + std::to_string(columns), expected, observed, "");
                          }});
    // A text long enough to fill several lines of any width
    const auto huge = prose(q ? 12000 : 20000), some = prose(400);
    k.families.push_back({"text", which + " x a text of up to " + std::to_string(huge.size()) + " characters: every line is filled to exactly that width, without a fallback or a bound other than the least of 32 and 80 without an answer",
                          [=](Chooser& c)
                          {
                              const auto columns = answers[c.pick(uint32_t(answers.size()))];
                              const auto& text = columns < 1000 ? some : huge;
                              Reset r;
                              console().columns = columns;
                              std::ostringstream s;
                              argos::ArgumentParser p("prog");
                              p.auto_exit(false).generate_help_option(false).stream(&s).text(TextId::USAGE, "").about(text);
                              p.write_help_text();
                              c.step();
                              c.trace();
                              c.state(hash64(s.str()));
                              c.outcome(columns < int(LEAST) ? "bounded" : "as answered");
                              check_layout(c, text, effective(columns), s.str(), "console answer " + std::to_string(columns) + ": ");
                          }});
    const std::vector<int> few{-1, 0, 1, 2, 3, 20, 31, 32, 33, 50, 79, 80, 81, 120, 200, 255, 256, 32767, 65535};
    k.families.push_back({"configured", "every configured width from 3 to " + std::to_string(q ? 300 : 1500) + " and some up to 2^32-1 x " + std::to_string(few.size()) + " answers of the console x " + std::to_string(OUTPUTS)
                          + " outputs: the answer has no influence, and the text is laid out to the configured width",
                          [=](Chooser& c)
                          {
                              static const std::vector<unsigned> large{2000, 32767, 32768, 65535, 65536, 65537, 1000000, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu};
                              const unsigned n = q ? 298 : 1498;
                              const auto i = c.pick(n + uint32_t(large.size()));
                              const auto width = i < n ? i + 3 : large[i - n];
                              const auto o = Output(c.pick(OUTPUTS));
                              Reset r;
                              Program a(80, width);
                              const auto expected = a.write(o, BAD_WORD);
                              for (int columns : few)
                              {
                                  console() = {};
                                  console().columns = columns;
                                  Program b(80, width);
                                  c.step();
                                  c.trace();
                                  expect_same(c, "width:configured", std::string(output_names[o]) + " with configured width " + std::to_string(width) + " and console answer " + std::to_string(columns), expected, b.write(o, BAD_WORD), "");
                                  if (o == HELP && width >= 13)
                                  {
                                      std::ostringstream s;
                                      argos::ArgumentParser p("prog");
                                      p.auto_exit(false).generate_help_option(false).stream(&s).line_width(width).text(TextId::USAGE, "").about(some);
                                      p.write_help_text();
                                      check_layout(c, some, width, s.str(), "configured width " + std::to_string(width) + ", console answer " + std::to_string(columns) + ": ");
                                  }
                              }
                              c.state(hash64(expected, width));
                              c.outcome(output_names[o]);
                          }});
    // The console changes, and so may the configuration.
    struct Event
    {
        bool configure;
        int value;
    };
    const std::vector<Event> events{{false, -1}, {false, 0}, {false, 10}, {false, 45}, {false, 100}, {true, 25}, {true, 60}};
    const std::vector<Output> some_outputs{HELP, SUB_HELP_OPTION, ERROR, CLIENT_ERROR};
    const uint32_t deep = q ? 5 : 6;
    k.families.push_back({"histories", "every sequence of up to " + std::to_string(deep) + " events (the console gets one of the widths none, 0, 10, 45, 100; the width is set to 25, 60), each followed by one of "
                          + std::to_string(some_outputs.size()) + " outputs of the same parser: always laid out to what is set, or else the console's width at that time",
                          [=](Chooser& c)
                          {
                              Reset r;
                              Program a(40);
                              unsigned configured = 0;
                              int columns = -1;
                              std::string history;
                              const auto n = 1 + c.pick(deep);
                              // one output for all events or, for short histories, any
                              const auto first = c.of(some_outputs);
                              for (uint32_t i = 0; i < n; ++i)
                              {
                                  const auto e = c.of(events);
                                  if (e.configure)
                                  {
                                      configured = unsigned(e.value);
                                      a.p.line_width(configured);
                                  }
                                  else
                                      columns = e.value;
                                  history += (e.configure ? "set " : "console ") + std::to_string(e.value) + " ";
                                  const auto o = i && n < 4 ? c.of(some_outputs) : first;
                                  console() = {};
                                  console().columns = columns;
                                  const auto observed = a.write(o, BAD_WORD);
                                  const auto width = configured ? configured : effective(columns);
                                  static std::map<std::pair<unsigned, int>, std::string> cache;
                                  auto& expected = cache[{width, o}];
                                  if (expected.empty())
                                  {
                                      console() = {};
                                      Program b(40, width);
                                      expected = b.write(o, BAD_WORD);
                                  }
                                  c.step();
                                  c.state(hash64(history));
                                  expect_same(c, "width:history", std::string(output_names[o]) + " after " + history, expected, observed, "");
                              }
                              c.trace();
                              c.outcome(std::to_string(configured ? configured : effective(columns)));
                          }});
    // Failures.
    const std::vector<int> errors{0, EPERM, EINTR, EIO, EBADF, EAGAIN, ENOMEM, EFAULT, ENODEV, EINVAL, ENOTTY, ENOSYS, 9999};
    k.families.push_back({"failures", std::to_string(errors.size()) + " errors of the query x what it leaves in its answer (0, 1, 50, 65535) x what other files than standard output answer (nothing, 1, 50) x "
                          + std::to_string(OUTPUTS) + " outputs x to a stream or the standard ones: the same as with a width of 80",
                          [=](Chooser& c)
                          {
                              Reset r;
                              const auto e = c.of(errors);
                              const int scribble = std::vector<int>{0, 1, 50, 65535}[c.pick(4)], elsewhere = std::vector<int>{-1, 1, 50}[c.pick(3)];
                              const auto o = Output(c.pick(OUTPUTS));
                              const bool stream = c.flip();
                              console().error = e;
                              console().scribble = scribble;
                              console().elsewhere = elsewhere;
                              Program a(80, 0, stream);
                              const auto observed = a.write(o, BAD_WORD);
                              console() = {};
                              Program b(80, FALLBACK, stream);
                              c.step();
                              c.trace();
                              c.state(hash64(observed, uint64_t(e * 100 + scribble)));
                              c.outcome(output_names[o]);
                              expect_same(c, "width:failure", std::string(output_names[o]) + " when the query fails with error " + std::to_string(e), b.write(o, BAD_WORD), observed, "");
                          }});
    // The answer may change at any moment.
    const std::vector<int> unstable{-1, 0, 1, 33, 100, 65535};
    k.families.push_back({"unstable", "every sequence of " + std::to_string(q ? 3 : 4) + " answers of " + std::to_string(unstable.size()) + " to the queries made for one output x " + std::to_string(OUTPUTS)
                          + " outputs: output is made and, layout apart, the same",
                          [=](Chooser& c)
                          {
                              Reset r;
                              const auto o = Output(c.pick(OUTPUTS));
                              Console x;
                              x.columns = c.of(unstable);
                              std::string seq = std::to_string(x.columns);
                              for (int i = q ? 2 : 3; i > 0; --i)
                              {
                                  x.then.push_back(c.of(unstable));
                                  seq += " " + std::to_string(x.then.back());
                              }
                              console() = x;
                              Program a(80);
                              const auto observed = a.write(o, BAD_WORD);
                              console() = {};
                              Program b(80, 100);
                              const auto expected = b.write(o, BAD_WORD);
                              auto words = [](std::string s)
                              {
                                  std::erase_if(s, [](char ch) { return ch == ' ' || ch == '\n'; });
                                  return s;
                              };
                              c.step();
                              c.trace();
                              c.state(hash64(observed));
                              c.outcome(output_names[o]);
                              expect_same(c, "width:unstable", std::string(output_names[o]) + " with answers " + seq, words(expected), words(observed), "");
                          }});
    k.assumptions = {"The console is the one of standard output; its query is replaced at link time by one that gives the enumerated answer.",
                     "Widths of 1 and 2 are refused when they are used; what a configured width of 0 means is left open."};
    return k;
}
