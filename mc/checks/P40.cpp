// Repeatable operations may overlap: nested in the client's functions, and on
// several threads. The library is built with ThreadSanitizer.
//
// Threads: operations are switched at the calls of the client's functions (a
// controlled scheduler, every schedule up to a number of preemptions). What
// lies between two such calls takes no lock, so if two operations that run
// without any synchronisation have no conflicting accesses, all interleavings
// in between are equivalent; that is what the "races" families establish.
#include "common.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace mc;

namespace
{
    class Sink : public std::streambuf
    {
    public:
        std::string text;

    protected:
        int_type overflow(int_type ch) override
        {
            text += char(ch);
            return ch;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            text.append(s, size_t(n));
            return n;
        }
    };

    struct Op_
    {
        enum Kind { PARSE, ITERATE, HELP, GETTERS, KINDS } kind;
        Strs line;

        std::string name() const
        {
            static const char* names[] = {"parse ", "iterate ", "help of ", "getters "};
            return names[kind] + show(line);
        }
    };

    // One operation and all it does, in words.
    std::string perform(const argos::ArgumentParser& p, const Op_& op)
    {
        RunLog log;
        auto* old = g_log;
        g_log = &log;
        std::string s;
        std::vector<std::string_view> sv(op.line.begin(), op.line.end());
        try
        {
            switch (op.kind)
            {
            case Op_::PARSE:
            {
                auto r = p.parse(std::move(sv));
                g_log = nullptr;
                s = text(observe(r), true);
                break;
            }
            case Op_::ITERATE:
            {
                auto it = p.make_iterator(std::move(sv));
                std::unique_ptr<argos::IArgumentView> v;
                std::string_view x;
                while (it.next(v, x))
                    s += std::string(x) + (v ? "#" + std::to_string(v->id()) : "") + " ";
                g_log = nullptr;
                s += text(observe(it.parsed_arguments()), true);
                break;
            }
            case Op_::HELP:
                if (op.line.empty())
                    p.write_help_text();
                else
                    p.write_subcommand_help_text(op.line);
                break;
            case Op_::GETTERS:
                s += std::to_string(p.allow_abbreviated_options()) + std::to_string(p.auto_exit()) + std::to_string(p.case_insensitive()) + std::to_string(p.generate_help_option())
                     + std::to_string(int(p.option_style())) + std::to_string(p.require_subcommand().value_or(false)) + std::to_string(p.allow_multiple_subcommands())
                     + std::to_string(p.ignore_undefined_arguments()) + std::to_string(p.ignore_undefined_options()) + std::to_string(bool(p.argument_callback()))
                     + std::to_string(bool(p.option_callback())) + p.program_name() + p.current_section() + std::to_string(p.stream() != nullptr);
                break;
            default: break;
            }
        }
        catch (argos::ArgosException& e)
        {
            s += std::string("ArgosException ") + e.what();
        }
        catch (ExitCalled& e)
        {
            s += "exit " + std::to_string(e.code);
        }
        g_log = old;
        return s + "\ncallbacks:\n" + text(log.events);
    }

    std::string with_output(const argos::ArgumentParser& p, const Op_& op, Sink& sink)
    {
        sink.text.clear();
        auto s = perform(p, op);
        return s + "output:\n" + sink.text;
    }

    struct Subject
    {
        ParserSpec spec;
        std::vector<Op_> ops; // the last ones write nothing
        size_t silent;        // how many of them do
    };

    Strs help_functions(ParserSpec& p)
    {
        std::function<void(CmdSpec&)> f = [&](CmdSpec& c)
        {
            for (auto id : {TextId::INITIAL_TEXT, TextId::ABOUT, TextId::OPTIONS_TITLE, TextId::ERROR_USAGE})
            {
                c.texts[id] = to_string(id) + " of " + c.name + ".";
                c.text_functions.insert(id);
            }
            for (auto& o : c.opts)
            {
                o.help = "Option " + o.flags[0] + ".";
                o.text_function = o.flags[0] == "-b";
            }
            for (auto& s : c.cmds)
                f(s);
        };
        f(p.root);
        return {};
    }

    std::vector<Subject> subjects()
    {
        std::vector<Subject> v;
        using K = Op_::Kind;
        for (int i : {1, 2, 5})
        {
            auto p = zoo_flat().specs[size_t(i)];
            p.root.args = i == 1 ? p.root.args : std::vector<ArgSpec>{arg("A", 0, 1), arg("B", 0, MANY)};
            p.opt_cb = p.arg_cb = true;
            p.line_width = 30;
            p.root.opts.back().optional = true;
            p.root.opts[0].acts = {{Act::INSERT, "", {"-bins"}, 1}};
            p.root.opts[1].acts = {{Act::APPEND, "-b", {"more"}, 1}};
            p.auto_exit = i == 2;
            if (i != 2)
                help_functions(p);
            number(p);
            v.push_back({p, {{K::HELP, {}}, {K::PARSE, {"-zz", "-h", "-b"}}, {K::PARSE, {"-h", "-b"}}, {K::PARSE, {"-b"}}, {K::PARSE, {"--version"}}, {K::ITERATE, {"-f", "-b"}},
                             {K::PARSE, {}}, {K::PARSE, {"v", "-b1", "--bb", "2"}}, {K::PARSE, {"-fkc", "-n", "-b3"}}, {K::ITERATE, {"v", "-f", "--bb=x"}}, {K::ITERATE, {"-s", "v"}}, {K::GETTERS, {}}},
                         0});
            v.back().silent = 6;
        }
        for (int i : {2, 8, 11})
        {
            auto p = zoo_tree().specs[size_t(i)];
            p.opt_cb = p.arg_cb = true;
            p.line_width = 30;
            p.gen_help = true;
            p.version = "1.2";
            p.root.require = false;
            if (i != 8)
                help_functions(p);
            number(p);
            v.push_back({p, {{K::HELP, {}}, {K::HELP, {"other", "leaf"}}, {K::PARSE, {"sub", "-zz"}}, {K::PARSE, {"other", "-h"}}, {K::ITERATE, {"sub", "-b"}}, {K::PARSE, {"--version"}},
                             {K::PARSE, {"-b", "1"}}, {K::PARSE, {"sub", "v", "-b1", "-b", "2"}}, {K::PARSE, {"other", "leaf", "-f", "x"}}, {K::ITERATE, {"-b1", "sub", "-b2", "w"}}, {K::ITERATE, {"sub", "-s", "v"}}, {K::GETTERS, {}}},
                         0});
            v.back().silent = 6;
        }
        return v;
    }

    // ------------------------------------------------------------- nesting
    void nested(Chooser& c, const std::vector<Subject>& all, int depth)
    {
        const auto& t = c.of(all);
        Sink sink;
        std::ostream os(&sink);
        auto parser = make_parser(t.spec);
        parser->stream(&os);
        const auto& p = *parser;
        std::vector<const Op_*> ops;
        for (int i = 0; i < depth; ++i)
            ops.push_back(&c.of(t.ops));
        Strs solo;
        std::vector<long> calls;
        for (auto o : ops)
        {
            client_faults().arm(0);
            solo.push_back(with_output(p, *o, sink));
            client_faults().disarm();
            calls.push_back(client_faults().count);
        }
        // at which call of the enclosing operation the nested one runs
        std::vector<long> at;
        for (int i = 0; i + 1 < depth; ++i)
        {
            if (!calls[size_t(i)])
                return;
            at.push_back(c.pick(uint32_t(calls[size_t(i)])));
        }
        std::string context = describe(t.spec);
        for (int i = 0; i < depth; ++i)
            context += std::string(size_t(i) * 2, ' ') + ops[size_t(i)]->name() + (i + 1 < depth ? ", at call " + std::to_string(at[size_t(i)] + 1) + " of the client's functions:" : "") + "\n";
        Strs seen(ops.size(), "");
        std::function<void(int)> run = [&](int level)
        {
            long n = 0;
            std::string before; // written by this operation until now
            size_t mark = sink.text.size();
            std::function<void()> hook = [&]
            {
                if (level + 1 >= depth || n++ != at[size_t(level)])
                    return;
                before += sink.text.substr(mark);
                auto* h = client_hook;
                run(level + 1);
                client_hook = h;
                mark = sink.text.size();
            };
            client_hook = &hook;
            auto s = perform(p, *ops[size_t(level)]);
            client_hook = nullptr;
            seen[size_t(level)] = s + "output:\n" + before + sink.text.substr(mark);
        };
        sink.text.clear();
        run(0);
        for (int i = 0; i < depth; ++i)
            expect_same(c, "nested", "operation " + std::to_string(i + 1), solo[size_t(i)], seen[size_t(i)], context);
        expect_same(c, "nested:after", "the first operation again", solo[0], with_output(p, *ops[0], sink), context);
        c.trace();
        c.step(uint64_t(depth));
        c.state(context);
        c.sample([&] { return context; });
    }

    // ------------------------------------------------------------- threads
    // Runs two functions on two threads, one at a time, and switches at the
    // given calls of client functions (counted over both).
    struct Schedule
    {
        std::mutex m;
        std::condition_variable cv;
        int turn;
        bool finished[2] = {false, false};
        std::vector<uint32_t> switches;
        uint32_t calls = 0;
        std::string trace;

        void wait(int me, std::unique_lock<std::mutex>& l)
        {
            cv.wait(l, [&] { return turn == me || finished[1 - me]; });
        }

        void call(int me)
        {
            std::unique_lock l(m);
            trace += char('A' + me);
            if (std::find(switches.begin(), switches.end(), calls++) != switches.end() && !finished[1 - me])
            {
                turn = 1 - me;
                trace += '|';
                cv.notify_all();
                wait(me, l);
            }
        }

        void run(const std::function<void()>& a, const std::function<void()>& b)
        {
            auto body = [&](int me, const std::function<void()>& f)
            {
                {
                    std::unique_lock l(m);
                    wait(me, l);
                }
                std::function<void()> hook = [this, me] { call(me); };
                client_hook = &hook;
                f();
                client_hook = nullptr;
                std::unique_lock l(m);
                finished[me] = true;
                turn = 1 - me;
                cv.notify_all();
            };
            std::thread x([&] { body(0, a); }), y([&] { body(1, b); });
            x.join();
            y.join();
        }
    };

    void scheduled(Chooser& c, const std::vector<Subject>& all, uint32_t preemptions)
    {
        const auto& t = c.of(all);
        Sink sink;
        std::ostream os(&sink);
        auto parser = make_parser(t.spec);
        parser->stream(&os);
        const auto& p = *parser;
        const auto& a = c.of(t.ops);
        const auto& b = t.ops[t.ops.size() - t.silent + c.pick(uint32_t(t.silent))];
        client_faults().arm(0);
        const auto ea = with_output(p, a, sink);
        const auto eb = with_output(p, b, sink);
        client_faults().disarm();
        const auto total = uint32_t(client_faults().count);
        Schedule s;
        s.turn = c.flip();
        uint32_t from = 0;
        for (uint32_t i = 0; i < preemptions && from < total; ++i)
        {
            const auto n = c.pick(total - from + 1);
            if (n == total - from)
                break;
            s.switches.push_back(from + n);
            from += n + 1;
        }
        std::string ra, rb;
        const int first = s.turn;
        sink.text.clear();
        s.run([&] { ra = perform(p, a); }, [&] { rb = perform(p, b); });
        ra += "output:\n" + sink.text;
        rb += "output:\n";
        const auto context = describe(t.spec) + "A: " + a.name() + "\nB: " + b.name() + "\n" + char('A' + first) + " first, calls of the client's functions and switches: " + s.trace + "\n";
        expect_same(c, "scheduled:A", "operation A", ea, ra, context);
        expect_same(c, "scheduled:B", "operation B", eb, rb, context);
        expect_same(c, "scheduled:after", "operation A again", ea, with_output(p, a, sink), context);
        c.trace();
        c.step(2);
        c.state(context);
        c.sample([&] { return context; });
    }

    // Without any synchronisation; ThreadSanitizer ends the execution if two
    // accesses conflict.
    void unsynchronised(const std::function<void()>& a, const std::function<void()>& b)
    {
        std::thread x(a), y(b);
        x.join();
        y.join();
    }

    void races(Chooser& c, const std::vector<Subject>& all)
    {
        const auto& t = c.of(all);
        Sink sink;
        std::ostream os(&sink);
        auto parser = make_parser(t.spec);
        parser->stream(&os);
        const auto& p = *parser;
        const auto& a = c.of(t.ops);
        const auto& b = t.ops[t.ops.size() - t.silent + c.pick(uint32_t(t.silent))];
        const bool swap = c.flip();
        const auto ea = with_output(p, a, sink), eb = with_output(p, b, sink);
        std::string ra, rb;
        const auto context = describe(t.spec) + "A: " + a.name() + "\nB: " + b.name() + "\non two threads\n";
        const std::function<void()> fa = [&] { ra = perform(p, a); }, fb = [&] { rb = perform(p, b); };
        sink.text.clear();
        unsynchronised(swap ? fb : fa, swap ? fa : fb);
        expect_same(c, "races:A", "operation A", ea, ra + "output:\n" + sink.text, context);
        expect_same(c, "races:B", "operation B", eb, rb + "output:\n", context);
        c.trace();
        c.step(2);
        c.state(context);
        c.sample([&] { return context; });
    }

    // Each thread has a parser and a stream of its own.
    void separate(Chooser& c, const std::vector<Subject>& all)
    {
        const Subject* t[2] = {&c.of(all), &c.of(all)};
        const Op_* o[2] = {&c.of(t[0]->ops), &c.of(t[1]->ops)};
        auto whole = [](const Subject& t, const Op_& o)
        {
            Sink sink;
            std::ostream os(&sink);
            auto parser = make_parser(t.spec);
            parser->stream(&os);
            return with_output(*parser, o, sink);
        };
        std::string e[2], r[2];
        for (int i : {0, 1})
            e[i] = whole(*t[i], *o[i]);
        unsynchronised([&] { r[0] = whole(*t[0], *o[0]); }, [&] { r[1] = whole(*t[1], *o[1]); });
        for (int i : {0, 1})
            expect_same(c, "separate", "a parser of its own on another thread", e[i], r[i], describe(t[i]->spec) + o[i]->name() + "\nand on another thread\n" + describe(t[1 - i]->spec) + o[1 - i]->name() + "\n");
        c.trace();
        c.step(2);
        c.state(describe(t[0]->spec) + o[0]->name() + describe(t[1]->spec) + o[1]->name());
    }

    // Reading one result, one definition.
    using Reader = std::pair<std::string, std::function<std::string()>>;

    void readers(Chooser& c, const std::vector<Subject>& all)
    {
        const auto& t = c.of(all);
        auto parser = make_parser(t.spec);
        Sink sink;
        std::ostream os(&sink);
        parser->stream(&os);
        const auto& line = t.ops[t.ops.size() - t.silent + 1 + c.pick(4)].line;
        std::vector<std::string_view> sv(line.begin(), line.end());
        std::optional<argos::ParsedArguments> result;
        try
        {
            result = std::as_const(*parser).parse(sv);
        }
        catch (ExitCalled&)
        {
            return;
        }
        const auto& r = *result;
        argos::Command definition = make_command(t.spec.root);
        argos::Option option = make_option(t.spec.root.opts[0]);
        argos::Argument argument = make_argument(arg("X", 1, 2));
        std::vector<Reader> readers{
            {"observe", [&] { return text(observe(r), true); }},
            {"print", [&]
             {
                 Sink k;
                 std::ostream o(&k);
                 print(r, o);
                 return k.text;
             }},
            {"values", [&]
             {
                 std::string s;
                 for (auto& x : r.values("-b").as_strings())
                     s += x + ",";
                 return s + r.values("-b").value(0).as_string();
             }},
            {"conversions", [&]
             {
                 std::string s;
                 for (auto& x : r.values("-b").values())
                 {
                     if (x.as_string().size() == 1 && isdigit(x.as_string()[0]))
                         s += std::to_string(x.as_int()) + std::to_string(x.as_double()) + std::to_string(x.as_bool()) + std::to_string(x.as_ullong());
                     for (auto& y : x.split('o').values())
                         s += y.as_string() + "/";
                 }
                 return s;
             }},
            {"views", [&]
             {
                 std::string s = r.command().name();
                 for (auto& x : r.all_options())
                     s += x->flags()[0] + x->help() + x->argument() + std::to_string(x->value_id());
                 for (auto& x : r.all_arguments())
                     s += x->name() + x->help() + std::to_string(x->count().second);
                 for (auto& x : r.all_subcommands())
                     s += x->name() + x->help();
                 return s;
             }},
            {"a copy of the result", [&]
             {
                 argos::ParsedArguments x(r);
                 return text(observe(x), true);
             }},
            {"a copy of the command", [&]
             {
                 argos::Command x(definition);
                 argos::ArgumentParser y("y");
                 y.add(std::move(x));
                 return std::string();
             }},
            {"copy_from", [&]
             {
                 argos::ArgumentParser x("x");
                 x.auto_exit(false);
                 Sink k;
                 std::ostream o(&k);
                 x.stream(&o);
                 x.copy_from(definition);
                 x.write_help_text();
                 return k.text;
             }},
            {"a copy of the option", [&]
             {
                 argos::Option x(option);
                 argos::ArgumentParser y("y");
                 y.add(std::move(x));
                 return std::string();
             }},
            {"a copy of the argument", [&]
             {
                 argos::Argument x(argument);
                 argos::ArgumentParser y("y");
                 y.add(std::move(x));
                 return std::string();
             }},
        };
        const auto& a = c.of(readers);
        const auto& b = c.of(readers);
        const auto ea = a.second(), eb = b.second();
        std::string ra, rb;
        unsynchronised([&] { ra = a.second(); }, [&] { rb = b.second(); });
        const auto context = describe(t.spec) + "after " + show(line) + ", on two threads: " + a.first + "; " + b.first + "\n";
        expect_same(c, "readers:A", a.first, ea, ra, context);
        expect_same(c, "readers:B", b.first, eb, rb, context);
        c.trace();
        c.step(2);
        c.state(context);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P40";
    const bool q = quick(tier);
    const auto all = subjects();
    const auto n = std::to_string(all.size()) + " definitions x ";
    k.families.push_back({"nested", n + "12 x 12 operations, the second one inside every call of a callback or text function of the first", [=](Chooser& c) { nested(c, all, 2); }});
    if (!q)
        k.families.push_back({"nested-3", n + "12 x 12 x 12 operations, each inside every call of a callback or text function of the one before", [=](Chooser& c) { nested(c, all, 3); }});
    k.families.push_back({"schedules", n + "12 x 6 operations on two threads, every schedule with up to " + std::string(q ? "2" : "4") + " preemptions at calls of the client's functions", [=](Chooser& c) { scheduled(c, all, q ? 2 : 4); }});
    k.families.push_back({"races", n + "12 x 6 operations of one parser on two unsynchronised threads, started in both orders: no conflicting accesses", [=](Chooser& c) { races(c, all); }});
    k.families.push_back({"separate", "every two of " + std::to_string(all.size()) + " definitions and 12 operations, each on a parser of its own on an unsynchronised thread", [=](Chooser& c) { separate(c, all); }});
    k.families.push_back({"readers", n + "4 results x 10 x 10 ways of reading one result or copying one definition on two unsynchronised threads", [=](Chooser& c) { readers(c, all); }});
    k.assumptions.push_back("at most one of two overlapping operations of one parser writes output; the stream and the callbacks are the client's to share");
    return k;
}
