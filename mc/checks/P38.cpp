// Failures that are not the library's own: exceptions of the client's
// functions, lack of memory at any allocation, streams that stop accepting
// output. Every point of failure of every explored operation is tried.
#include "common.hpp"
#include <new>
#include <system_error>
#include <variant>
using namespace mc;

namespace
{
    // Takes everything up to a limit without allocating.
    class Sink : public std::streambuf
    {
    public:
        size_t limit = size_t(-1), used = 0;
        std::vector<char> text = std::vector<char>(1 << 16);

        std::string str() const { return {text.data(), used}; }

    protected:
        int_type overflow(int_type ch) override
        {
            if (used >= limit || used >= text.size())
                return traits_type::eof();
            text[used++] = char(ch);
            return ch;
        }
    };

    enum Use { PARSE, PARSE_ONCE, ITERATE, ITERATE_ONCE, HELP, SUB_HELP, USES };
    const char* use_names[] = {"const parse", "parse", "const iteration", "iteration", "write_help_text", "write_subcommand_help_text"};

    struct Stream
    {
        size_t limit = size_t(-1);
        bool exceptions = false;
        bool failed_before = false;
    };

    struct Seen
    {
        std::string end, events, stream, other;
        std::string all() const { return end + "\ncallbacks:\n" + events + "stream:\n" + stream + "\nelsewhere:\n" + other; }
    };

    // Performs one operation; the faults are armed only while the library runs.
    Seen perform(argos::ArgumentParser& parser, const ParserSpec& p, Use use, const Strs& line, const std::function<void()>& arm = {}, const Stream& stream = {})
    {
        Seen s;
        RunLog log;
        g_log = &log;
        Sink sink;
        std::ostream os(&sink);
        sink.limit = stream.limit;
        if (stream.exceptions)
            os.exceptions(std::ios::badbit | std::ios::failbit);
        if (stream.failed_before && !stream.exceptions)
            os.setstate(std::ios::failbit);
        if (p.custom_stream)
            parser.stream(&os);
        auto off = []
        {
            allocation_faults().disarm();
            client_faults().disarm();
        };
        std::vector<std::string_view> sv(line.begin(), line.end());
        const auto& cp = parser;
        Capture cap;
        std::optional<argos::ParsedArguments> r;
        std::optional<argos::ArgumentIterator> it;
        std::unique_ptr<argos::IArgumentView> v;
        auto attempt = [&](auto f) -> std::string
        {
            try
            {
                f();
                off();
                return "returned";
            }
            catch (Boom& b)
            {
                off();
                return "Boom " + std::to_string(b.which);
            }
            catch (int n)
            {
                off();
                return "int " + std::to_string(n);
            }
            catch (const char* t)
            {
                off();
                return std::string("text ") + t;
            }
            catch (std::bad_alloc& e)
            {
                off();
                if (typeid(e) != typeid(std::bad_alloc))
                    return std::string("another bad_alloc ") + e.what();
                return "std::bad_alloc";
            }
            catch (argos::ArgosException& e)
            {
                off();
                return std::string("ArgosException ") + e.what();
            }
            catch (ExitCalled& e)
            {
                off();
                return "exit " + std::to_string(e.code);
            }
            catch (std::ios_base::failure&)
            {
                off();
                return "std::ios_base::failure";
            }
            catch (std::exception& e)
            {
                off();
                return std::string("another exception ") + typeid(e).name() + " " + e.what();
            }
            catch (...)
            {
                off();
                return "an unknown exception";
            }
        };
        s.end = attempt([&]
        {
            std::string_view x;
            if (arm)
                arm();
            switch (use)
            {
            case PARSE: r = cp.parse(std::move(sv)); break;
            case PARSE_ONCE: r = parser.parse(std::move(sv)); break;
            case ITERATE:
                it = cp.make_iterator(std::move(sv));
                while (it->next(v, x))
                {
                }
                break;
            case ITERATE_ONCE:
                it = parser.make_iterator(std::move(sv));
                while (it->next(v, x))
                {
                }
                break;
            case HELP: cp.write_help_text(); break;
            case SUB_HELP: cp.write_subcommand_help_text(line); break;
            default: break;
            }
        });
        s.events = text(log.events);
        s.stream = sink.str();
        s.other = cap.out() + cap.err();
        if (s.end == "returned")
        {
            if (it)
                r = it->parsed_arguments();
            if (r)
                s.end += " " + text(observe(*r), true);
        }
        else if (it)
        {
            // What it does now is open, but it does no harm.
            attempt([&]
            {
                std::string_view x;
                for (int i = 0; i < 3; ++i)
                    it->next(v, x);
            });
            attempt([&] { g_log = nullptr; observe(it->parsed_arguments()); });
        }
        g_log = nullptr;
        if (p.custom_stream)
        {
            if (use != PARSE_ONCE && use != ITERATE_ONCE)
                parser.stream(nullptr);
        }
        return s;
    }

    bool begins_with(const std::string& whole, const std::string& part)
    {
        return whole.compare(0, part.size(), part) == 0;
    }

    struct Given
    {
        Chooser& c;
        ParserSpec p;
        Use use;
        Strs line;
        std::unique_ptr<argos::ArgumentParser> parser{};
        Seen baseline{};
        long allocations = 0, calls = 0;

        bool repeatable() const { return use != PARSE_ONCE && use != ITERATE_ONCE; }
        std::string what() const { return std::string(use_names[use]) + " " + show(line) + "\n" + describe(p); }

        Seen run(const std::function<void()>& arm = {}, const Stream& s = {})
        {
            if (repeatable())
                return perform(*parser, p, use, line, arm, s);
            auto once = make_parser(p);
            return perform(*once, p, use, line, arm, s);
        }

        // The undisturbed operation, and how many points of failure it has.
        void begin()
        {
            parser = make_parser(p);
            run();
            baseline = run([]
            {
                allocation_faults().arm(0);
                client_faults().arm(0);
            });
            allocations = allocation_faults().count;
            calls = client_faults().count;
        }

        // The same with a failure: `judge` says what is wrong, if anything.
        void disturbed(const std::string& sig, const std::string& which, const std::function<void()>& arm, const Stream& st,
                       const std::function<const char*(const Seen&)>& judge)
        {
            c.step();
            for (int i = 0;; ++i)
            {
                const auto before = live_allocations();
                {
                    const auto s = run(arm, st);
                    if (auto wrong = judge(s))
                        c.fail(sig + ":passing", what() + which + "\n" + wrong + "\nundisturbed: " + baseline.all() + "\nobserved: " + s.all());
                }
                const auto after = live_allocations();
                if (after == before)
                    break;
                if (i == 2) // no cache warms up twice
                    c.fail(sig + ":leak", what() + which + "\n" + std::to_string(after - before) + " allocations are not released");
            }
            if (repeatable())
            {
                const auto again = run();
                if (again.all() != baseline.all())
                    c.fail(sig + ":after", what() + which + "\nthe same operation afterwards\nexpected: " + baseline.all() + "\nobserved: " + again.all());
            }
        }

        void finish()
        {
            c.trace();
            c.state(hash64(what()));
            c.outcome(baseline.end.substr(0, 8));
            c.sample([&] { return what() + "  -> " + baseline.end + " (" + std::to_string(allocations) + " allocations, " + std::to_string(calls) + " client calls)"; });
        }
    };

    // An exception type of the client's own.
    struct Own : std::invalid_argument
    {
        explicit Own(long n) : std::invalid_argument("own " + std::to_string(n)) {}
    };
    struct OwnMemory : std::bad_alloc
    {
        const char* what() const noexcept override { return "own memory"; }
    };

    // What clients may throw, and how it looks when it arrives.
    struct Thrown
    {
        const char* name;
        std::function<void(long)> thrower;
        std::function<std::string(long)> arrives;
    };

    template <typename E>
    Thrown thrown(const char* name, const char* what)
    {
        const std::string t(what);
        return {name, [t](long) { throw E(t); }, [t](long) { return std::string("another exception ") + typeid(E).name() + " " + t; }};
    }

    const std::vector<Thrown>& all_thrown()
    {
        static const std::vector<Thrown> v{
            {"an object", {}, [](long n) { return "Boom " + std::to_string(n); }},
            {"std::invalid_argument's heir", [](long n) { throw Own(n); }, [](long n) { return std::string("another exception ") + typeid(Own).name() + " own " + std::to_string(n); }},
            thrown<std::invalid_argument>("std::invalid_argument", "stoi"),
            thrown<std::out_of_range>("std::out_of_range", "stoi"),
            thrown<std::domain_error>("std::domain_error", "mine"),
            thrown<std::length_error>("std::length_error", "mine"),
            thrown<std::logic_error>("std::logic_error", "mine"),
            thrown<std::runtime_error>("std::runtime_error", "mine"),
            thrown<std::range_error>("std::range_error", "mine"),
            {"std::system_error", [](long) { throw std::system_error(std::make_error_code(std::errc::io_error), "x"); },
             [](long) { return std::string("another exception ") + typeid(std::system_error).name() + " " + std::system_error(std::make_error_code(std::errc::io_error), "x").what(); }},
            {"std::bad_alloc", [](long) { throw std::bad_alloc(); }, [](long) { return std::string("std::bad_alloc"); }},
            {"std::bad_alloc's heir", [](long) { throw OwnMemory(); }, [](long) { return std::string("another bad_alloc own memory"); }},
            {"std::bad_function_call", [](long) { throw std::bad_function_call(); }, [](long) { return std::string("another exception ") + typeid(std::bad_function_call).name() + " bad_function_call"; }},
            {"std::bad_variant_access", [](long) { throw std::bad_variant_access(); }, [](long) { return std::string("another exception ") + typeid(std::bad_variant_access).name() + " " + std::bad_variant_access().what(); }},
            {"std::exception", [](long) { throw std::exception(); }, [](long) { return std::string("another exception ") + typeid(std::exception).name() + " " + std::exception().what(); }},
            {"ArgosException", [](long) { throw argos::ArgosException("mine"); }, [](long) { return std::string("ArgosException mine"); }},
            {"std::ios_base::failure", [](long) { throw std::ios_base::failure("mine"); }, [](long) { return std::string("std::ios_base::failure"); }},
            {"an int", [](long n) { throw int(n); }, [](long n) { return "int " + std::to_string(n); }},
            {"a text", [](long) { throw "mine"; }, [](long) { return std::string("text mine"); }},
        };
        return v;
    }

    // Every call fails in every way if `every`, and otherwise with an object
    // and with one other exception, which varies between the calls.
    void client_failures(Given& g, bool events, bool every)
    {
        g.begin();
        const auto& all = all_thrown();
        const auto seed = hash64(g.what());
        auto fails = [&](long n, const Thrown& t)
        {
            g.disturbed("client", "call " + std::to_string(n) + " of " + std::to_string(g.calls) + " of the client's functions throws " + t.name,
                        [n, &t]
                        {
                            client_thrower = t.thrower;
                            client_faults().arm(n);
                        }, {},
                        [&](const Seen& s) -> const char*
                        {
                            client_thrower = {};
                            if (s.end != t.arrives(n))
                                return "the exception does not reach the caller as it was thrown";
                            if (events && !begins_with(g.baseline.events, s.events))
                                return "other callbacks ran than before the exception";
                            if (events && !begins_with(g.baseline.stream + g.baseline.other, s.stream + s.other))
                                return "something was written because of the exception";
                            return nullptr;
                        });
        };
        for (long n = 1; n <= g.calls; ++n)
        {
            fails(n, all[0]);
            for (size_t i = 1; i < all.size(); ++i)
                if (every || (seed + uint64_t(n) * 7) % (all.size() - 1) == i - 1)
                    fails(n, all[i]);
        }
        g.finish();
    }

    void memory_failures(Given& g)
    {
        g.begin();
        for (long n = 1; n <= g.allocations; ++n)
            for (bool lasting : {false, true})
            {
                g.disturbed("memory", std::string(lasting ? "from allocation " : "allocation ") + std::to_string(n) + " of " + std::to_string(g.allocations) + (lasting ? " on they all fail" : " fails"),
                            [n, lasting] { allocation_faults().arm(n, lasting); }, {},
                            [&](const Seen& s) -> const char*
                            {
                                if (s.end != "std::bad_alloc" && s.all() != g.baseline.all())
                                    return "neither std::bad_alloc nor the same as without the failure";
                                if (s.end == "std::bad_alloc" && !begins_with(g.baseline.events, s.events))
                                    return "other callbacks ran than before the failure";
                                return nullptr;
                            });
            }
        g.finish();
    }

    void stream_failures(Given& g)
    {
        g.begin();
        const auto& text = g.baseline.stream;
        for (size_t n = 0; n <= text.size(); ++n)
            for (int mode = 0; mode < 2; ++mode)
                g.disturbed("stream", "the stream accepts " + std::to_string(n) + " of " + std::to_string(text.size()) + " characters" + (mode ? " and throws" : ""), {},
                            Stream{n, mode == 1, false},
                            [&](const Seen& s) -> const char*
                            {
                                if (s.stream != text.substr(0, n))
                                    return "other characters were written";
                                if (!s.other.empty())
                                    return "something was written elsewhere";
                                if (s.end == g.baseline.end && s.events == g.baseline.events)
                                    return nullptr;
                                if (mode == 1 && n < text.size() && s.end == "std::ios_base::failure" && begins_with(g.baseline.events, s.events))
                                    return nullptr;
                                return "the outcome is another";
                            });
        if (!text.empty())
            g.disturbed("stream", "the stream had failed before", {}, Stream{size_t(-1), false, true},
                        [&](const Seen& s) -> const char*
                        {
                            return s.stream.empty() && s.other.empty() && s.end == g.baseline.end && s.events == g.baseline.events ? nullptr : "the outcome is another";
                        });
        g.finish();
    }

    ParserSpec observed(ParserSpec p, bool auto_exit)
    {
        p.opt_cb = p.arg_cb = true;
        p.auto_exit = auto_exit;
        p.line_width = 40;
        return p;
    }

    // Texts are the results of functions. (Or short strings where memory is
    // made to fail: libstdc++ 13 itself misbehaves when copying the content of
    // a std::variant<std::string, std::function> fails.)
    ParserSpec told(ParserSpec p, unsigned which, bool functions = true)
    {
        std::function<void(CmdSpec&)> f = [&](CmdSpec& c)
        {
            unsigned n = 0;
            for (auto id : {TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::ABOUT, TextId::HELP, TextId::OPTIONS_TITLE, TextId::ARGUMENTS_TITLE,
                            TextId::SUBCOMMANDS_TITLE, TextId::FINAL_TEXT, TextId::ERROR_USAGE})
                if (n++; which == 0 || (which == 1 && n % 2) || (which == 2 && n % 3 == 1))
                {
                    if (functions)
                    {
                        c.texts[id] = to_string(id) + " of " + c.name + ".";
                        c.text_functions.insert(id);
                    }
                    else
                        c.texts[id] = "T " + std::to_string(n) + " a b c";
                }
            for (auto& a : c.args)
            {
                a.help = "Argument " + a.name + ".";
                a.text_function = functions;
            }
            for (auto& o : c.opts)
            {
                o.help = "Opt " + o.flags[0] + ".";
                o.text_function = functions;
            }
            for (auto& s : c.cmds)
                f(s);
        };
        f(p.root);
        return p;
    }

    // Reading from a result or a value.
    struct Reading
    {
        const char* name;
        std::function<std::string(const argos::ParsedArguments&, std::ostream&)> f;
    };

    std::string tell(const argos::ArgumentValues& vs)
    {
        std::string s;
        for (auto& v : vs.values())
            s += v.as_string() + "@" + (v.argument() ? std::to_string(v.argument()->id()) : "-") + ",";
        return s;
    }

    const std::vector<Reading>& readings()
    {
        using argos::ParsedArguments;
        static const std::vector<Reading> r{
            {"value and as_string", [](const ParsedArguments& r, std::ostream&) { return r.value("-b").as_string("none of them at all"); }},
            {"values", [](const ParsedArguments& r, std::ostream&) { return tell(r.values("-b")); }},
            {"values and as_strings", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.values("A").as_strings({"nothing"})) s += x + ","; return s; }},
            {"values and as_ints", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.values("-b").as_ints({1, 2, 3}, 16)) s += std::to_string(x) + ","; return s; }},
            {"values and as_doubles", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.values("-b").as_doubles()) s += std::to_string(x) + ","; return s; }},
            {"split of a value", [](const ParsedArguments& r, std::ostream&) { return tell(r.value("-b").split(',', 1, 3)); }},
            {"split_n of a value", [](const ParsedArguments& r, std::ostream&) { return tell(r.value("-b").split_n(',', 3)); }},
            {"as_double of a value", [](const ParsedArguments& r, std::ostream&) { return std::to_string(r.value("-b").as_double()); }},
            {"as_int of a value", [](const ParsedArguments& r, std::ostream&) { return std::to_string(r.value("-b").as_int()); }},
            {"arguments of values", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.values("-b").arguments()) s += (x ? x->help() : "-") + ","; return s; }},
            {"all_arguments", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.all_arguments()) s += x->name() + ","; return s; }},
            {"all_options", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.all_options()) s += x->flags()[0] + ","; return s; }},
            {"all_subcommands", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.all_subcommands()) s += x->name() + ","; return s; }},
            {"command", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.command().options()) s += x.flags()[0] + ","; return s; }},
            {"stop_option", [](const ParsedArguments& r, std::ostream&) { return r.stop_option().flags()[0]; }},
            {"subcommands", [](const ParsedArguments& r, std::ostream&) { std::string s; for (auto& x : r.subcommands()) s += std::string(x.name()) + ","; return s; }},
            {"print", [](const ParsedArguments& r, std::ostream& o) { print(r, o); return std::string(); }},
            {"error of a result", [](const ParsedArguments& r, std::ostream&) -> std::string { r.error("This is the text of an error."); }},
            {"error of a value", [](const ParsedArguments& r, std::ostream&) -> std::string { r.value("-f").error("This is the text of an error."); }},
            {"an unknown name", [](const ParsedArguments& r, std::ostream&) { return tell(r.values("there is no such name")); }},
            {"filter_parsed_arguments", [](const ParsedArguments& r, std::ostream&)
             {
                 char a[] = "prog", b[] = "v", d[] = "-zz", e[] = "rest";
                 char* av[] = {a, b, d, e, nullptr};
                 char** v = av;
                 int n = 4;
                 r.filter_parsed_arguments(n, v);
                 std::string s;
                 for (int i = 0; i < n; ++i)
                     s += std::string(v[i]) + ",";
                 return s;
             }},
        };
        return r;
    }

    void reading(Chooser& c, ParserSpec p, const Strs& line)
    {
        const auto& r = c.of(readings());
        const auto what = std::string(r.name) + " after " + show(line) + "\n" + describe(p);
        Sink sink;
        std::ostream os(&sink);
        auto parser = make_parser(p);
        parser->stream(&os);
        std::vector<std::string_view> sv(line.begin(), line.end());
        const auto result = std::as_const(*parser).parse(std::move(sv));
        parser.reset();
        auto whole = [&]
        {
            std::ostringstream o;
            print(result, o);
            return text(observe(result), true) + "\n" + o.str();
        };
        const auto state = whole();
        auto once = [&](long n, bool lasting, bool& struck)
        {
            sink.used = 0;
            os.clear();
            std::string s;
            auto off = [&]
            {
                allocation_faults().disarm();
            };
            try
            {
                allocation_faults().arm(n, lasting);
                s = r.f(result, os);
                off();
            }
            catch (std::bad_alloc&)
            {
                off();
                s = "std::bad_alloc";
            }
            catch (argos::ArgosException& e)
            {
                off();
                s = std::string("ArgosException ") + e.what();
            }
            catch (ExitCalled& e)
            {
                off();
                s = "exit " + std::to_string(e.code);
            }
            catch (...)
            {
                off();
                s = "another exception";
            }
            struck = allocation_faults().struck;
            if (s != "std::bad_alloc")
                s += "\n" + sink.str();
            return s;
        };
        bool struck = false;
        once(0, false, struck);
        const auto baseline = once(0, false, struck);
        const auto count = allocation_faults().count;
        for (long n = 1; n <= count; ++n)
            for (bool lasting : {false, true})
            {
                c.step();
                const auto which = std::string(lasting ? "from allocation " : "allocation ") + std::to_string(n) + " of " + std::to_string(count) + (lasting ? " on they all fail" : " fails");
                for (int i = 0;; ++i)
                {
                    const auto before = live_allocations();
                    {
                        const auto s = once(n, lasting, struck);
                        if (s != baseline && !(s == "std::bad_alloc" && struck))
                            c.fail("reading:passing", what + which + "\nneither std::bad_alloc nor the same as without the failure\nundisturbed: " + baseline + "\nobserved: " + s);
                    }
                    const auto after = live_allocations();
                    if (after == before)
                        break;
                    if (i == 2)
                        c.fail("reading:leak", what + which + "\n" + std::to_string(after - before) + " allocations are not released");
                }
            }
        expect_same(c, "reading:after", "the result afterwards", state, whole(), what);
        expect_same(c, "reading:again", "the same reading afterwards", baseline, once(0, false, struck), what);
        c.trace();
        c.state(hash64(what));
        c.sample([&] { return what + " -> " + baseline + " (" + std::to_string(count) + " allocations)"; });
    }

    // Building a parser: the definitions are released, and what is left of it
    // can still be used without harm.
    void defining(Chooser& c, const ParserSpec& p)
    {
        const auto what = describe(p);
        auto once = [&](long n, bool lasting)
        {
            std::string s = "made";
            try
            {
                allocation_faults().arm(n, lasting);
                auto x = make_parser(p);
                allocation_faults().disarm();
            }
            catch (std::bad_alloc&)
            {
                allocation_faults().disarm();
                s = "std::bad_alloc";
            }
            catch (argos::ArgosException& e)
            {
                allocation_faults().disarm();
                s = std::string("ArgosException ") + e.what();
            }
            return s;
        };
        once(0, false);
        const auto baseline = once(0, false);
        const auto count = allocation_faults().count;
        for (long n = 1; n <= count; ++n)
            for (bool lasting : {false, true})
            {
                c.step();
                const auto which = std::string(lasting ? "from allocation " : "allocation ") + std::to_string(n) + " of " + std::to_string(count) + (lasting ? " on they all fail" : " fails");
                for (int i = 0;; ++i)
                {
                    const auto before = live_allocations();
                    {
                        const auto s = once(n, lasting);
                        if (s != baseline && s != "std::bad_alloc")
                            c.fail("definition:passing", what + which + "\nundisturbed: " + baseline + "\nobserved: " + s);
                    }
                    const auto after = live_allocations();
                    if (after == before)
                        break;
                    if (i == 2)
                        c.fail("definition:leak", what + which + "\n" + std::to_string(after - before) + " allocations are not released");
                }
            }
        c.trace();
        c.state(hash64(what));
        c.sample([&] { return what + " -> " + baseline + " (" + std::to_string(count) + " allocations)"; });
    }

    // Another iteration and an earlier result do not notice.
    void bystanders(Chooser& c, const ParserSpec& p, const Strs& line, const Strs& alphabet, bool memory)
    {
        (void)alphabet;
        const auto what = show(line) + "\n" + describe(p);
        auto parser = make_parser(p);
        Sink sink;
        std::ostream os(&sink);
        parser->stream(&os);
        auto views = [&] { return std::vector<std::string_view>(line.begin(), line.end()); };
        const auto& cp = *parser;
        // the undisturbed steps
        Strs expected;
        auto step = [](argos::ArgumentIterator& it, argos::ParsedArguments& r)
        {
            std::unique_ptr<argos::IArgumentView> v;
            std::string_view x;
            try
            {
                const bool more = it.next(v, x);
                return (more ? std::string(x) + " " : std::string("end ")) + (v ? std::to_string(v->id()) + " " : "- ") + text(observe(r), true);
            }
            catch (argos::ArgosException& e)
            {
                return std::string(e.what());
            }
        };
        {
            auto it = cp.make_iterator(views());
            auto r = it.parsed_arguments();
            for (size_t i = 0; i < line.size() + 4; ++i)
                expected.push_back(step(it, r));
        }
        std::string end;
        RunLog log;
        g_log = &log;
        auto disturb = [&](long n)
        {
            auto& f = memory ? allocation_faults() : client_faults();
            try
            {
                f.arm(n);
                auto r = cp.parse(views());
                f.disarm();
            }
            catch (Boom&)
            {
            }
            catch (std::bad_alloc&)
            {
            }
            f.disarm();
            return f.count;
        };
        const auto count = disturb(0);
        g_log = nullptr;
        for (long n = 1; n <= count; n += memory ? 7 : 1)
        {
            c.step();
            auto it = cp.make_iterator(views());
            auto r = it.parsed_arguments();
            for (size_t i = 0; i < expected.size(); ++i)
            {
                const auto s = step(it, r);
                if (s != expected[i])
                    c.fail("bystander", what + "step " + std::to_string(i) + " of an iteration while other parses fail at point " + std::to_string(n) + "\nexpected: " + expected[i] + "\nobserved: " + s);
                g_log = &log;
                disturb(n);
                g_log = nullptr;
                log.events.clear();
            }
        }
        c.trace();
        c.state(hash64(what));
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P38";
    const bool q = quick(tier);
    auto with_settings = [](Zoo z, bool exits)
    {
        for (auto& p : z.specs)
        {
            p = observed(p, exits);
            number(p);
        }
        return z;
    };
    auto lines = [&](std::string name, std::string which, Zoo z, size_t most, std::vector<Use> uses, std::function<void(Given&)> f)
    {
        k.families.push_back({name, std::to_string(z.specs.size()) + " definitions x auto-exit on or off x every line of up to " + std::to_string(most) + " tokens of " + show(z.alphabet) + " x " + std::to_string(uses.size()) + " operations x " + which,
                              [=](Chooser& c)
                              {
                                  auto p = c.of(z.specs);
                                  p.auto_exit = c.flip();
                                  const auto use = c.of(uses);
                                  Given g{c, p, use, pick_line(c, z.alphabet, most)};
                                  f(g);
                              }});
    };
    const auto flat = with_settings(zoo_flat(), false), tree = with_settings(zoo_tree(), false), slash = with_settings(zoo_flat(Style::SLASH), false);
    auto few = [](Zoo z, std::vector<size_t> which, Strs alphabet)
    {
        Zoo r;
        for (auto i : which)
            r.specs.push_back(z.specs[i]);
        r.alphabet = std::move(alphabet);
        return r;
    };
    const std::vector<Use> parses{PARSE, PARSE_ONCE, ITERATE, ITERATE_ONCE};
    auto callbacks = [q](Given& g) { client_failures(g, true, !q || g.line.size() < 2); };
    auto texts = [q](Given& g) { client_failures(g, false, !q); };
    const std::string calls = "every call of a callback throwing, " + std::to_string(all_thrown().size()) + " kinds of exceptions (" + (q ? "lines up to 1 argument: all; longer ones: two at a time)" : "all)"), memory = "every allocation failing, alone or with all later ones", stream = "every number of characters the stream accepts, failing silently or by an exception";
    lines("callbacks", calls, flat, q ? 2 : 3, parses, callbacks);
    lines("callbacks-tree", calls, tree, q ? 2 : 3, parses, callbacks);
    lines("callbacks-slash", calls, slash, q ? 1 : 2, parses, callbacks);

    for (unsigned which = 0; which < 3; ++which)
    {
        Zoo z = few(flat, {1, 4}, {"-h", "-zz", "v", "-b"});
        Zoo t = few(tree, {2, 6}, {"sub", "-h", "other", "-zz", "v"});
        for (auto* x : {&z, &t})
            for (auto& p : x->specs)
                p = told(p, which);
        lines("texts-" + std::to_string(which), "every call of a text function throwing two kinds of exceptions (thorough: all)", z, 2, {PARSE, ITERATE_ONCE, HELP}, texts);
        lines("texts-tree-" + std::to_string(which), "every call of a text function throwing two kinds of exceptions (thorough: all)", t, 2, {PARSE, ITERATE_ONCE, HELP}, texts);
        for (auto& p : t.specs)
            k.families.push_back({"texts-help-" + std::to_string(which) + "-" + std::to_string(&p - t.specs.data()), "the help of every sub-command x every call of a text function throwing",
                                  [p, q](Chooser& c)
                                  {
                                      Given g{c, p, SUB_HELP, c.of(std::vector<Strs>{{}, {"sub"}, {"other"}, {"other", "leaf"}, {"other", "twig"}, {"nothing"}})};
                                      client_failures(g, false, !q);
                                  }});
    }

    lines("memory", memory, few(flat, {1, 4}, flat.alphabet), q ? 1 : 2, parses, memory_failures);
    lines("memory-tree", memory, few(tree, {2, 9}, {"sub", "other", "leaf", "v", "-b", "-s", "-h", "-zz"}), q ? 1 : 2, parses, memory_failures);
    k.families.push_back({"memory-tree-deeper", "longer lines with sub-commands x " + memory,
                          [=](Chooser& c)
                          {
                              static const std::vector<Strs> some{{"sub", "v", "sub", "v"}, {"other", "leaf", "-f", "-e", "twig", "a", "b"}, {"-b", "1", "sub", "-b2", "-s", "x"}, {"other", "-l", "-x"}};
                              Given g{c, observed(tree.specs[c.of(std::vector<size_t>{8, 13, 9, 2})], c.flip()), c.of(parses), c.of(some)};
                              number(g.p);
                              memory_failures(g);
                          }});
    lines("memory-help", memory, Zoo{{told(flat.specs[1], 0, false), told(tree.specs[2], 1, false)}, {"sub"}}, 1, {HELP, SUB_HELP}, memory_failures);

    lines("stream", stream, few(flat, {1, 4}, {"-h", "-zz", "v", "--version", "-b"}), 2, {PARSE, ITERATE}, stream_failures);
    lines("stream-tree", stream, few(tree, {2, 6, 11}, {"sub", "other", "-h", "-zz", "v"}), q ? 2 : 3, {PARSE, ITERATE}, stream_failures);
    lines("stream-help", stream, Zoo{{told(flat.specs[1], 0), told(tree.specs[2], 0), flat.specs[4]}, {"sub", "other"}}, 1, {HELP, SUB_HELP}, stream_failures);

    k.families.push_back({"reading", "results of 6 definitions and 8 lines x " + std::to_string(readings().size()) + " ways of reading them x " + memory,
                          [=](Chooser& c)
                          {
                              static const std::vector<Strs> some{{}, {"v", "w"}, {"v", "-b1,2,3"}, {"v", "-b1", "-b22222222222222222222222222222"}, {"v", "-s", "rest", "v"}, {"v", "-b", "a,long,value,that,is,not,short", "-f"}, {"v", "-zz", "-m", "m"}, {"-h"}};
                              auto p = flat.specs[c.pick(uint32_t(flat.specs.size()))];
                              p.auto_exit = false;
                              p.root.opts[0].id = 77;
                              if (c.flip())
                                  p.root.args = {arg("A", 0, MANY)};
                              else
                                  p.root.args = {arg("A", 0, 1), arg("B", 0, 3)};
                              number(p);
                              reading(c, p, c.of(some));
                          }});
    k.families.push_back({"definition", "every definition of the zoo x the ways it can reach the parser x texts set or not x " + memory,
                          [=](Chooser& c)
                          {
                              const auto n = c.pick(uint32_t(flat.specs.size() + tree.specs.size()));
                              auto p = n < flat.specs.size() ? flat.specs[n] : tree.specs[n - flat.specs.size()];
                              if (c.flip())
                                  p = told(p, c.pick(3), false);
                              const auto way = CmdSpec::Way(c.pick(CmdSpec::WAYS));
                              p.root.way = c.flip() ? way : CmdSpec::DIRECT;
                              for (auto& s : p.root.cmds)
                                  s.way = way;
                              defining(c, p);
                          }});
    k.families.push_back({"bystanders", "an iteration during which, after every step, a parse of the same parser fails: " + std::to_string(tree.specs.size()) + " definitions x lines x every call of a callback or every seventh allocation",
                          [=](Chooser& c)
                          {
                              const auto& p = c.of(tree.specs);
                              const Strs alphabet{"sub", "other", "leaf", "v", "-b", "-b1"};
                              bystanders(c, p, pick_line(c, alphabet, q ? 2 : 3), alphabet, c.flip());
                          }});
    k.assumptions.push_back("memory is obtained through operator new");
    return k;
}
