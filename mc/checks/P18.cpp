// Moved-from and used-up objects; every order of operations on two parsers,
// two options, an argument, two commands and two iterators.
#include "common.hpp"
using namespace mc;

namespace
{
    using argos::ArgosException;

    template <typename F>
    bool throws(F f)
    {
        try
        {
            f();
            return false;
        }
        catch (ArgosException&)
        {
            return true;
        }
    }

    struct Iter
    {
        bool live = false;
        bool failing = false; // command line that fails in its first step
        int steps = 0;
    };

    struct World
    {
        // model
        std::optional<ParserSpec> p[2];
        std::optional<OptSpec> o[2];
        std::optional<ArgSpec> a;
        std::optional<CmdSpec> k[2];
        Iter it[2];
        // real
        std::unique_ptr<argos::ArgumentParser> rp[2];
        std::unique_ptr<argos::Option> ro[2];
        std::unique_ptr<argos::Argument> ra;
        std::unique_ptr<argos::Command> rk[2];
        std::unique_ptr<argos::ArgumentIterator> rit[2];
        std::ostringstream stream;
        bool open = false; // the model no longer says what holds
        std::string log;
    };

    bool duplicate_flags(const CmdSpec& c)
    {
        std::set<std::string> seen;
        for (auto& o : c.opts)
            for (auto& f : o.flags)
                if (!seen.insert(f).second)
                    return true;
        for (auto& s : c.cmds)
            if (duplicate_flags(s))
                return true;
        return false;
    }

    using Step = std::function<void(World&, Chooser&)>;

    struct Operation
    {
        std::string name;
        // applicable?
        std::function<bool(const World&)> when;
        Step run;
    };

    void expect(World& w, Chooser& c, bool should_throw, bool did_throw)
    {
        if (should_throw != did_throw)
            c.fail("misuse", w.log + "\n" + (should_throw ? "the last operation on a used-up object was accepted" : "the last operation on valid objects was rejected"));
    }

    // Everything that can be asked of a parser besides adding and parsing.
    // Only called with used-up parsers.
    std::vector<std::pair<std::string, std::function<void(argos::ArgumentParser&)>>> parser_calls()
    {
        using P = argos::ArgumentParser;
        static std::ostringstream s;
        return {
            {"allow_abbreviated_options", [](P& p) { (void)p.allow_abbreviated_options(); }},
            {"allow_abbreviated_options(x)", [](P& p) { p.allow_abbreviated_options(true); }},
            {"auto_exit", [](P& p) { (void)p.auto_exit(); }},
            {"auto_exit(x)", [](P& p) { p.auto_exit(true); }},
            {"case_insensitive", [](P& p) { (void)p.case_insensitive(); }},
            {"case_insensitive(x)", [](P& p) { p.case_insensitive(true); }},
            {"generate_help_option", [](P& p) { (void)p.generate_help_option(); }},
            {"generate_help_option(x)", [](P& p) { p.generate_help_option(true); }},
            {"option_style", [](P& p) { (void)p.option_style(); }},
            {"option_style(x)", [](P& p) { p.option_style(Style::DASH); }},
            {"require_subcommand", [](P& p) { (void)p.require_subcommand(); }},
            {"require_subcommand(x)", [](P& p) { p.require_subcommand(true); }},
            {"allow_multiple_subcommands", [](P& p) { (void)p.allow_multiple_subcommands(); }},
            {"allow_multiple_subcommands(x)", [](P& p) { p.allow_multiple_subcommands(true); }},
            {"ignore_undefined_arguments", [](P& p) { (void)p.ignore_undefined_arguments(); }},
            {"ignore_undefined_arguments(x)", [](P& p) { p.ignore_undefined_arguments(true); }},
            {"ignore_undefined_options", [](P& p) { (void)p.ignore_undefined_options(); }},
            {"ignore_undefined_options(x)", [](P& p) { p.ignore_undefined_options(true); }},
            {"argument_callback", [](P& p) { (void)p.argument_callback(); }},
            {"argument_callback(x)", [](P& p) { p.argument_callback({}); }},
            {"option_callback", [](P& p) { (void)p.option_callback(); }},
            {"option_callback(x)", [](P& p) { p.option_callback({}); }},
            {"stream", [](P& p) { (void)p.stream(); }},
            {"stream(x)", [](P& p) { p.stream(&s); }},
            {"program_name", [](P& p) { (void)p.program_name(); }},
            {"program_name(x)", [](P& p) { p.program_name("x"); }},
            {"about", [](P& p) { p.about("x"); }},
            {"version", [](P& p) { p.version("x"); }},
            {"current_section", [](P& p) { (void)p.current_section(); }},
            {"current_section(x)", [](P& p) { p.current_section("x"); }},
            {"text(x)", [](P& p) { p.text(TextId::USAGE, "x"); }},
            {"text(function)", [](P& p) { p.text(TextId::USAGE, [] { return std::string("x"); }); }},
            {"line_width", [](P& p) { p.line_width(50); }},
            {"add_word_splitting_rule", [](P& p) { p.add_word_splitting_rule("a b"); }},
            {"set_exit_codes", [](P& p) { p.set_exit_codes(1, 2); }},
            {"write_help_text", [](P& p) { p.write_help_text(); }},
            {"write_subcommand_help_text", [](P& p) { p.write_subcommand_help_text({}); }},
            {"write_subcommand_help_text(sub)", [](P& p) { p.write_subcommand_help_text({"sub"}); }},
            {"parse", [](P& p) { (void)p.parse(std::vector<std::string_view>{"v"}); }},
            {"const parse", [](P& p) { (void)std::as_const(p).parse(std::vector<std::string_view>{"v"}); }},
            {"parse(argv)", [](P& p) { char n[] = "n"; char* v[] = {n, nullptr}; (void)p.parse(1, v); }},
            {"const parse(argv)", [](P& p) { char n[] = "n"; char* v[] = {n, nullptr}; (void)std::as_const(p).parse(1, v); }},
            {"parse(0 arguments)", [](P& p) { (void)p.parse(0, nullptr); }},
            {"const parse(0 arguments)", [](P& p) { (void)std::as_const(p).parse(0, nullptr); }},
            {"make_iterator", [](P& p) { (void)p.make_iterator(std::vector<std::string_view>{}); }},
            {"const make_iterator", [](P& p) { (void)std::as_const(p).make_iterator(std::vector<std::string_view>{}); }},
            {"make_iterator(argv)", [](P& p) { char n[] = "n"; char* v[] = {n, nullptr}; (void)p.make_iterator(1, v); }},
            {"const make_iterator(argv)", [](P& p) { char n[] = "n"; char* v[] = {n, nullptr}; (void)std::as_const(p).make_iterator(1, v); }},
            {"make_iterator(0 arguments)", [](P& p) { (void)p.make_iterator(0, nullptr); }},
            {"add argument", [](P& p) { p.add(argos::Argument("X")); }},
            {"add option", [](P& p) { p.add(argos::Option("-x")); }},
            {"add command", [](P& p) { p.add(argos::Command("x")); }},
            {"copy_from", [](P& p) { p.copy_from(argos::Command("x")); }},
        };
    }

    std::vector<std::pair<std::string, std::function<void(argos::Option&)>>> option_calls()
    {
        using O = argos::Option;
        return {
            {"help", [](O& o) { o.help("x"); }},
            {"help(function)", [](O& o) { o.help([] { return std::string("x"); }); }},
            {"section", [](O& o) { o.section("x"); }},
            {"alias", [](O& o) { o.alias("x"); }},
            {"callback", [](O& o) { o.callback({}); }},
            {"visibility", [](O& o) { o.visibility(Vis::HIDDEN); }},
            {"id", [](O& o) { o.id(1); }},
            {"operation", [](O& o) { o.operation(Op::APPEND); }},
            {"flag", [](O& o) { o.flag("-x"); }},
            {"flags", [](O& o) { o.flags({"-x"}); }},
            {"argument", [](O& o) { o.argument("x"); }},
            {"initial_value", [](O& o) { o.initial_value("x"); }},
            {"constant(char*)", [](O& o) { o.constant("x"); }},
            {"constant(string)", [](O& o) { o.constant(std::string("x")); }},
            {"constant(bool)", [](O& o) { o.constant(true); }},
            {"constant(int)", [](O& o) { o.constant(1); }},
            {"constant(long long)", [](O& o) { o.constant(1LL); }},
            {"type", [](O& o) { o.type(Type::HELP); }},
            {"optional", [](O& o) { o.optional(); }},
            {"mandatory", [](O& o) { o.mandatory(); }},
            {"add to parser", [](O& o) { argos::ArgumentParser("p").add(o); }},
            {"add to command", [](O& o) { argos::Command("p").add(o); }},
        };
    }

    std::vector<std::pair<std::string, std::function<void(argos::Argument&)>>> argument_calls()
    {
        using A = argos::Argument;
        return {
            {"help", [](A& o) { o.help("x"); }},
            {"help(function)", [](A& o) { o.help([] { return std::string("x"); }); }},
            {"section", [](A& o) { o.section("x"); }},
            {"alias", [](A& o) { o.alias("x"); }},
            {"callback", [](A& o) { o.callback({}); }},
            {"visibility", [](A& o) { o.visibility(Vis::HIDDEN); }},
            {"id", [](A& o) { o.id(1); }},
            {"name", [](A& o) { o.name("x"); }},
            {"optional", [](A& o) { o.optional(); }},
            {"mandatory", [](A& o) { o.mandatory(); }},
            {"count(n)", [](A& o) { o.count(2); }},
            {"count(m,n)", [](A& o) { o.count(1, 2); }},
            {"add to parser", [](A& o) { argos::ArgumentParser("p").add(o); }},
            {"add to command", [](A& o) { argos::Command("p").add(o); }},
        };
    }

    std::vector<std::pair<std::string, std::function<void(argos::Command&)>>> command_calls()
    {
        using C = argos::Command;
        return {
            {"add argument", [](C& o) { o.add(argos::Argument("X")); }},
            {"add option", [](C& o) { o.add(argos::Option("-x")); }},
            {"add command", [](C& o) { o.add(argos::Command("x")); }},
            {"name", [](C& o) { o.name("x"); }},
            {"help", [](C& o) { o.help("x"); }},
            {"about", [](C& o) { o.about("x"); }},
            {"section", [](C& o) { o.section("x"); }},
            {"current_section", [](C& o) { o.current_section("x"); }},
            {"text", [](C& o) { o.text(TextId::USAGE, "x"); }},
            {"text(function)", [](C& o) { o.text(TextId::USAGE, [] { return std::string("x"); }); }},
            {"visibility", [](C& o) { o.visibility(Vis::HIDDEN); }},
            {"id", [](C& o) { o.id(1); }},
            {"allow_multiple_subcommands", [](C& o) { o.allow_multiple_subcommands(true); }},
            {"require_subcommand", [](C& o) { o.require_subcommand(true); }},
            {"copy_from", [](C& o) { argos::Command x("x"); o.copy_from(x); }},
            {"be copied from by a command", [](C& o) { argos::Command x("x"); x.copy_from(o); }},
            {"be copied from by a parser", [](C& o) { argos::ArgumentParser("p").copy_from(o); }},
            {"add to parser", [](C& o) { argos::ArgumentParser("p").add(o); }},
            {"add to command", [](C& o) { argos::Command("p").add(o); }},
        };
    }

    template <typename T, typename Calls>
    void all_throw(World& w, Chooser& c, T& x, const Calls& calls)
    {
        for (auto& [n, f] : calls)
        {
            c.step();
            Capture quiet;
            bool thrown;
            try
            {
                thrown = throws([&] { f(x); });
            }
            catch (ExitCalled&)
            {
                thrown = false;
            }
            if (!thrown)
                c.fail("misuse:" + n, w.log + "\n" + n + " on a used-up object was accepted");
        }
    }

    // Adding an argument where there are sub-commands and the reverse.
    bool mixes(const CmdSpec& into, const CmdSpec& from)
    {
        return (!into.args.empty() && !from.cmds.empty()) || (!into.cmds.empty() && !from.args.empty());
    }

    void copy_spec(CmdSpec& into, const CmdSpec& from)
    {
        into.args.insert(into.args.end(), from.args.begin(), from.args.end());
        into.opts.insert(into.opts.end(), from.opts.begin(), from.opts.end());
        into.cmds.insert(into.cmds.end(), from.cmds.begin(), from.cmds.end());
        for (auto& t : from.texts)
            into.texts.insert(t);
    }

    bool texts_clash(const CmdSpec& into, const CmdSpec& from)
    {
        for (auto& t : from.texts)
            if (into.texts.count(t.first))
                return true;
        return false;
    }

    std::vector<Operation> operations()
    {
        std::vector<Operation> v;
        auto s = [](size_t i) { return std::to_string(i); };
        // Consumes into a container: `room` tells whether the model accepts.
        for (size_t i = 0; i < 2; ++i)
        {
            const size_t j = 1 - i;
            // -- parsers
            v.push_back({"P" + s(i) + ".add(A)", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.p[i] || !w.a;
                             const bool invalid = !bad && !w.p[i]->root.cmds.empty();
                             expect(w, c, bad || invalid, throws([&] { w.rp[i]->add(*w.ra); }));
                             if (invalid)
                                 w.open = true;
                             else if (!bad)
                             {
                                 w.p[i]->root.args.push_back(*w.a);
                                 w.a.reset();
                             }
                         }});
            for (size_t x = 0; x < 2; ++x)
            {
                v.push_back({"P" + s(i) + ".add(O" + s(x) + ")", nullptr, [=](World& w, Chooser& c)
                             {
                                 const bool bad = !w.p[i] || !w.o[x];
                                 expect(w, c, bad, throws([&] { w.rp[i]->add(*w.ro[x]); }));
                                 if (!bad)
                                 {
                                     w.p[i]->root.opts.push_back(*w.o[x]);
                                     w.o[x].reset();
                                 }
                             }});
                v.push_back({"P" + s(i) + ".add(K" + s(x) + ")", nullptr, [=](World& w, Chooser& c)
                             {
                                 const bool bad = !w.p[i] || !w.k[x];
                                 const bool invalid = !bad && !w.p[i]->root.args.empty();
                                 expect(w, c, bad || invalid, throws([&] { w.rp[i]->add(*w.rk[x]); }));
                                 if (invalid)
                                     w.open = true;
                                 else if (!bad)
                                 {
                                     w.p[i]->root.cmds.push_back(*w.k[x]);
                                     w.k[x].reset();
                                 }
                             }});
            }
            v.push_back({"P" + s(i) + ".copy_from(K" + s(i) + ")", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.p[i] || !w.k[i];
                             const bool invalid = !bad && (mixes(w.p[i]->root, *w.k[i]) || texts_clash(w.p[i]->root, *w.k[i]));
                             expect(w, c, bad || invalid, throws([&] { w.rp[i]->copy_from(*w.rk[i]); }));
                             if (!bad && !invalid)
                                 copy_spec(w.p[i]->root, *w.k[i]);
                         }});
            v.push_back({"P" + s(i) + " = move(P" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             *w.rp[i] = std::move(*w.rp[j]);
                             w.p[i] = std::move(w.p[j]);
                             w.p[j].reset();
                         }});
            v.push_back({"P" + s(i) + " constructed from move(P" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             w.rp[i] = std::make_unique<argos::ArgumentParser>(w.rp[j]->move());
                             w.p[i] = std::move(w.p[j]);
                             w.p[j].reset();
                         }});
            v.push_back({"P" + s(i) + ".parse", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.p[i] || duplicate_flags(w.p[i]->root);
                             expect(w, c, bad, throws([&] { Capture q; (void)w.rp[i]->parse({"v"}); }));
                             if (w.p[i] && bad)
                                 w.open = true; // whether it is still usable then
                             w.p[i].reset();
                         }});
            v.push_back({"P" + s(i) + " change settings", [=](const World& w) { return bool(w.p[i]); }, [=](World& w, Chooser&)
                         {
                             w.rp[i]->ignore_undefined_arguments(true).ignore_undefined_options(true).version("9").program_name("renamed").allow_multiple_subcommands(true).require_subcommand(false).generate_help_option(true);
                             auto& p = *w.p[i];
                             p.ign_arg = p.ign_opt = p.root.multi = p.gen_help = true;
                             p.version = "9";
                             p.root.name = "renamed";
                             p.root.require = false;
                         }});
            for (bool once : {false, true})
                for (bool failing : {false, true})
                    v.push_back({"I" + s(i) + " = P" + s(i) + (once ? "" : " (const)") + ".make_iterator" + (failing ? "(failing)" : "()"), nullptr, [=](World& w, Chooser& c)
                                 {
                                     const bool bad = !w.p[i] || duplicate_flags(w.p[i]->root);
                                     std::vector<std::string_view> line;
                                     if (failing)
                                         line = {"--nope"};
                                     std::unique_ptr<argos::ArgumentIterator> it;
                                     expect(w, c, bad, throws([&]
                                                              {
                                                                  if (once)
                                                                      it = std::make_unique<argos::ArgumentIterator>(w.rp[i]->make_iterator(line));
                                                                  else
                                                                      it = std::make_unique<argos::ArgumentIterator>(std::as_const(*w.rp[i]).make_iterator(line));
                                                              }));
                                     if (!bad)
                                     {
                                         w.rit[i] = std::move(it);
                                         // an empty line fails if something is missing
                                         const bool missing = !failing && model_run(*w.p[i], {}).failed;
                                         w.it[i] = {true, failing ? !w.p[i]->ign_opt : missing, 0};
                                         // leave what a failing line does to an ignoring parser
                                         if (failing && w.p[i]->ign_opt)
                                             w.it[i].live = false, w.rit[i].reset();
                                     }
                                     if (once && w.p[i])
                                     {
                                         if (bad)
                                             w.open = true;
                                         w.p[i].reset();
                                     }
                                 }});
            // -- iterators
            v.push_back({"I" + s(i) + ".next", [=](const World& w) { return bool(w.rit[i]); }, [=](World& w, Chooser& c)
                         {
                             std::unique_ptr<argos::IArgumentView> view;
                             std::string_view value;
                             auto& it = w.it[i];
                             const bool bad = !it.live || (it.failing && it.steps > 0);
                             bool more = false;
                             expect(w, c, bad, throws([&] { Capture q; more = w.rit[i]->next(view, value); }));
                             if (more)
                                 c.fail("misuse", w.log + "\nstep of an empty command line");
                             if (!bad)
                                 ++it.steps;
                         }});
            v.push_back({"I" + s(i) + ".parsed_arguments", [=](const World& w) { return bool(w.rit[i]); }, [=](World& w, Chooser& c)
                         {
                             expect(w, c, !w.it[i].live, throws([&] { (void)w.rit[i]->parsed_arguments().result_code(); }));
                         }});
            v.push_back({"I" + s(i) + " = move(I" + s(j) + ")", [=](const World& w) { return w.rit[i] && w.rit[j]; }, [=](World& w, Chooser&)
                         {
                             *w.rit[i] = std::move(*w.rit[j]);
                             w.it[i] = w.it[j];
                             w.it[j].live = false;
                         }});
            v.push_back({"I" + s(i) + " constructed from move(I" + s(j) + ")", [=](const World& w) { return bool(w.rit[j]); }, [=](World& w, Chooser&)
                         {
                             w.rit[i] = std::make_unique<argos::ArgumentIterator>(std::move(*w.rit[j]));
                             w.it[i] = w.it[j];
                             w.it[j].live = false;
                         }});
            // -- options
            v.push_back({"O" + s(i) + " = move(O" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             *w.ro[i] = std::move(*w.ro[j]);
                             w.o[i] = std::move(w.o[j]);
                             w.o[j].reset();
                         }});
            v.push_back({"O" + s(i) + " constructed from move(O" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             w.ro[i] = std::make_unique<argos::Option>(std::move(*w.ro[j]));
                             w.o[i] = std::move(w.o[j]);
                             w.o[j].reset();
                         }});
            v.push_back({"O" + s(i) + " = O" + s(j), nullptr, [=](World& w, Chooser& c)
                         {
                             const bool t = throws([&] { *w.ro[i] = *w.ro[j]; });
                             if (w.o[j])
                                 expect(w, c, false, t);
                             if (!t)
                                 w.o[i] = w.o[j];
                         }});
            v.push_back({"O" + s(i) + " constructed from O" + s(j), nullptr, [=](World& w, Chooser& c)
                         {
                             const bool t = throws([&] { w.ro[i] = std::make_unique<argos::Option>(*w.ro[j]); });
                             if (w.o[j])
                                 expect(w, c, false, t);
                             if (!t)
                                 w.o[i] = w.o[j];
                         }});
            v.push_back({"O" + s(i) + ".flag", nullptr, [=](World& w, Chooser& c)
                         {
                             expect(w, c, !w.o[i], throws([&] { w.ro[i]->flag(i ? "-y" : "-x").help("changed"); }));
                             if (w.o[i])
                             {
                                 w.o[i]->flags = {i ? "-y" : "-x"};
                                 w.o[i]->help = "changed";
                             }
                         }});
            // -- commands
            v.push_back({"K" + s(i) + " = move(K" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             *w.rk[i] = std::move(*w.rk[j]);
                             w.k[i] = std::move(w.k[j]);
                             w.k[j].reset();
                         }});
            v.push_back({"K" + s(i) + " constructed from move(K" + s(j) + ")", nullptr, [=](World& w, Chooser&)
                         {
                             w.rk[i] = std::make_unique<argos::Command>(std::move(*w.rk[j]));
                             w.k[i] = std::move(w.k[j]);
                             w.k[j].reset();
                         }});
            v.push_back({"K" + s(i) + " = K" + s(j), nullptr, [=](World& w, Chooser& c)
                         {
                             const bool t = throws([&] { *w.rk[i] = *w.rk[j]; });
                             if (w.k[j])
                                 expect(w, c, false, t);
                             if (!t)
                                 w.k[i] = w.k[j];
                         }});
            v.push_back({"K" + s(i) + " constructed from K" + s(j), nullptr, [=](World& w, Chooser& c)
                         {
                             const bool t = throws([&] { w.rk[i] = std::make_unique<argos::Command>(*w.rk[j]); });
                             if (w.k[j])
                                 expect(w, c, false, t);
                             if (!t)
                                 w.k[i] = w.k[j];
                         }});
            v.push_back({"K" + s(i) + ".name", nullptr, [=](World& w, Chooser& c)
                         {
                             expect(w, c, !w.k[i], throws([&] { w.rk[i]->name("named" + s(i)).require_subcommand(false); }));
                             if (w.k[i])
                             {
                                 w.k[i]->name = "named" + s(i);
                                 w.k[i]->require = false;
                             }
                         }});
            v.push_back({"K" + s(i) + ".add(O" + s(i) + ")", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.k[i] || !w.o[i];
                             expect(w, c, bad, throws([&] { w.rk[i]->add(*w.ro[i]); }));
                             if (!bad)
                             {
                                 w.k[i]->opts.push_back(*w.o[i]);
                                 w.o[i].reset();
                             }
                         }});
            v.push_back({"K" + s(i) + ".add(K" + s(j) + ")", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.k[i] || !w.k[j];
                             const bool invalid = !bad && !w.k[i]->args.empty();
                             expect(w, c, bad || invalid, throws([&] { w.rk[i]->add(*w.rk[j]); }));
                             if (invalid)
                                 w.open = true;
                             else if (!bad)
                             {
                                 w.k[i]->cmds.push_back(*w.k[j]);
                                 w.k[j].reset();
                             }
                         }});
            v.push_back({"K" + s(i) + ".copy_from(K" + s(j) + ")", nullptr, [=](World& w, Chooser& c)
                         {
                             const bool bad = !w.k[i] || !w.k[j];
                             const bool invalid = !bad && (mixes(*w.k[i], *w.k[j]) || texts_clash(*w.k[i], *w.k[j]));
                             expect(w, c, bad || invalid, throws([&] { w.rk[i]->copy_from(*w.rk[j]); }));
                             if (!bad && !invalid)
                                 copy_spec(*w.k[i], *w.k[j]);
                         }});
        }
        // -- argument
        v.push_back({"A moved away and back", nullptr, [](World& w, Chooser&)
                     {
                         argos::Argument t(std::move(*w.ra));
                         w.ra = std::make_unique<argos::Argument>("TEMP");
                         *w.ra = std::move(t);
                     }});
        v.push_back({"A moved away", nullptr, [](World& w, Chooser&)
                     {
                         argos::Argument t(std::move(*w.ra));
                         w.a.reset();
                     }});
        v.push_back({"A replaced by its copy", nullptr, [](World& w, Chooser& c)
                     {
                         const bool t = throws([&]
                                               {
                                                   argos::Argument t(*w.ra);
                                                   w.ra->~Argument();
                                                   new (w.ra.get()) argos::Argument(std::move(t));
                                               });
                         if (w.a)
                             expect(w, c, false, t);
                     }});
        v.push_back({"A.name", nullptr, [](World& w, Chooser& c)
                     {
                         expect(w, c, !w.a, throws([&] { w.ra->name("B"); }));
                         if (w.a)
                             w.a->name = "B";
                     }});
        v.push_back({"K0.add(A)", nullptr, [](World& w, Chooser& c)
                     {
                         const bool bad = !w.k[0] || !w.a;
                         const bool invalid = !bad && !w.k[0]->cmds.empty();
                         expect(w, c, bad || invalid, throws([&] { w.rk[0]->add(*w.ra); }));
                         if (invalid)
                             w.open = true;
                         else if (!bad)
                         {
                             w.k[0]->args.push_back(*w.a);
                             w.a.reset();
                         }
                     }});
        return v;
    }

    World start()
    {
        World w;
        auto quiet = [](OptSpec o, int id)
        {
            o.callback = false;
            o.id = id;
            o.help = "help of " + std::to_string(id);
            return o;
        };
        for (size_t i = 0; i < 2; ++i)
        {
            ParserSpec p = parser(cmd(i ? "q" : "p", {}, {quiet(opt({i ? "-q" : "-p"}), 1 + int(i))}));
            if (i)
            {
                p.ign_arg = true;
                p.version = "1.0";
            }
            p.root.texts[TextId::ABOUT] = i ? "About q" : "About p";
            w.p[i] = p;
            w.rp[i] = make_parser(p);
            w.rp[i]->stream(&w.stream);
            auto o = quiet(i ? append({"-b"}) : opt({"-a"}), 11 + int(i));
            w.o[i] = o;
            w.ro[i] = std::make_unique<argos::Option>(make_option(o));
            auto k = i ? cmd("two", {}, {quiet(opt({"-t"}), 22)}, {cmd("leaf")}) : cmd("one", {}, {quiet(opt({"-o"}), 21)});
            k.id = 31 + int(i);
            k.texts[TextId::FINAL_TEXT] = i ? "final two" : "final one";
            k.section = i ? "SECOND" : "";
            if (i)
                k.cmds[0].id = 40;
            w.k[i] = k;
            w.rk[i] = std::make_unique<argos::Command>(make_command(k));
        }
        auto a = arg("A", 0, 2);
        a.id = 15;
        a.callback = false;
        w.a = a;
        w.ra = std::make_unique<argos::Argument>(make_argument(a));
        return w;
    }

    // The state of every object at the end.
    void judge(World& w, Chooser& c)
    {
        static const auto pc = parser_calls();
        static const auto oc = option_calls();
        static const auto ac = argument_calls();
        static const auto kc = command_calls();
        auto check_parser = [&](const ParserSpec& p, argos::ArgumentParser& real, const std::string& what)
        {
            w.stream.str("");
            if (duplicate_flags(p.root))
            {
                if (!throws([&] { (void)std::as_const(real).parse({"v"}); }))
                    c.fail("misuse:duplicate", w.log + "\n" + what + " with duplicate flags was accepted");
                return;
            }
            for (auto& line : std::vector<Strs>{{}, {"v", "w"}, {"-a", "-b"}, {"-p"}, {"-q", "v"}, {"-x", "-b", "y"}, {"one", "-o"}, {"two", "-t"}, {"two", "leaf"}, {"named0", "v"}, {"named1"}, {"one", "-a", "v"}})
            {
                const auto m = model_run(p, line);
                c.step(m.steps_taken);
                if (m.undefined)
                    continue;
                const auto r = real_run_on(real, p, line, Route::PARSE_CONST);
                if (text(m.root, true) != text(r.root, true) && !(m.failed && r.failed))
                    c.fail("misuse:parse", w.log + "\n" + what + " no longer parses as defined: " + show(line) + "\n" + describe(p) + "expected " + text(m.root, true) + "\nobserved " + text(r.root, true));
            }
            // its help, compared with a parser defined in one go
            w.stream.str("");
            std::ostringstream fresh_stream;
            auto fresh = make_parser(p);
            fresh->stream(&fresh_stream).line_width(80);
            real.stream(&w.stream);
            real.line_width(80);
            fresh->write_help_text();
            real.write_help_text();
            for (auto& s : p.root.cmds)
            {
                fresh->write_subcommand_help_text({s.name});
                real.write_subcommand_help_text({s.name});
            }
            expect_same(c, "misuse:help", what + "'s help is not what was defined", fresh_stream.str(), w.stream.str(), w.log + "\n");
        };
        for (size_t i = 0; i < 2; ++i)
        {
            const auto n = std::to_string(i);
            if (w.p[i])
                check_parser(*w.p[i], *w.rp[i], "P" + n);
            else
                all_throw(w, c, *w.rp[i], pc);
            if (w.o[i])
            {
                auto p = parser(root({}, {*w.o[i]}));
                argos::ArgumentParser real("prog", false);
                real.auto_exit(false).generate_help_option(false).stream(&w.stream).add(argos::Option(*w.ro[i]));
                check_parser(p, real, "O" + n);
            }
            else
                all_throw(w, c, *w.ro[i], oc);
            if (w.k[i])
            {
                auto p = parser(root({}, {}, {*w.k[i]}));
                argos::ArgumentParser real("prog", false);
                real.auto_exit(false).generate_help_option(false).stream(&w.stream).add(argos::Command(*w.rk[i]));
                check_parser(p, real, "K" + n);
            }
            else
                all_throw(w, c, *w.rk[i], kc);
            if (w.rit[i] && !w.it[i].live)
            {
                std::unique_ptr<argos::IArgumentView> view;
                std::string_view value;
                if (!throws([&] { w.rit[i]->next(view, value); }) || !throws([&] { (void)w.rit[i]->parsed_arguments(); }))
                    c.fail("misuse:iterator", w.log + "\nI" + n + " was moved from but is accepted");
            }
        }
        if (w.a)
        {
            auto p = parser(root({*w.a}));
            argos::ArgumentParser real("prog", false);
            real.auto_exit(false).generate_help_option(false).stream(&w.stream).add(argos::Argument(*w.ra));
            check_parser(p, real, "A");
        }
        else
            all_throw(w, c, *w.ra, ac);
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P18";
    const bool q = quick(tier);
    const auto ops = operations();
    auto family = [&](std::string name, std::function<bool(const std::string&)> pick, uint32_t depth)
    {
        std::vector<Operation> some;
        std::string names;
        for (auto& o : ops)
            if (pick(o.name))
            {
                some.push_back(o);
                names += (names.empty() ? "" : ", ") + o.name;
            }
        k.families.push_back({name, "every sequence of up to " + std::to_string(depth) + " of " + std::to_string(some.size()) + " operations (" + names + ") on two parsers, two options, an argument, two commands and two iterators, then every function of each used-up object and the parses and help of each valid one against the model",
                              [=](Chooser& c)
                              {
                                  auto w = start();
                                  const auto n = c.pick(depth + 1);
                                  for (uint32_t i = 0; i < n && !w.open; ++i)
                                  {
                                      std::vector<const Operation*> now;
                                      for (auto& o : some)
                                          if (!o.when || o.when(w))
                                              now.push_back(&o);
                                      const auto* o = now[c.pick(uint32_t(now.size()))];
                                      w.log += o->name + "; ";
                                      c.step();
                                      o->run(w, c);
                                  }
                                  if (w.open)
                                  {
                                      c.outcome("left open");
                                      return;
                                  }
                                  c.state(w.log);
                                  c.trace();
                                  judge(w, c);
                                  c.outcome(std::string(w.p[0] ? "P0 " : "") + (w.p[1] ? "P1 " : "") + (w.o[0] ? "O0 " : "") + (w.o[1] ? "O1 " : "") + (w.a ? "A " : "") + (w.k[0] ? "K0 " : "") + (w.k[1] ? "K1 " : ""));
                              }});
    };
    auto starts = [](const std::string& n, const std::string& chars) { return chars.find(n[0]) != std::string::npos; };
    family("all", [](const std::string&) { return true; }, q ? 2 : 3);
    family("parsers and iterators", [=](const std::string& n) { return (starts(n, "P") && n.find("add") == n.npos) || starts(n, "I"); }, q ? 3 : 4);
    family("options", [=](const std::string& n) { return starts(n, "O") || n.find("add(O") != n.npos; }, q ? 3 : 4);
    family("commands", [=](const std::string& n) { return (starts(n, "K") || n.find("(K") != n.npos) && n.find("P1") == n.npos; }, q ? 3 : 4);
    family("argument", [=](const std::string& n) { return starts(n, "A") || n.find("(A)") != n.npos || n.find("P0 = ") == 0; }, q ? 4 : 5);

    // Which uses use a parser up, whatever the definition and the command line.
    auto consumption = [&](const char* name, Zoo z, size_t most)
    {
        for (auto& p : z.specs)
            number(p);
        k.families.push_back({name, std::to_string(z.specs.size()) + " definitions x auto-exit or not x every line of up to " + std::to_string(most) + " tokens of " + show(z.alphabet)
                              + " x every entry point: the one-shot ones use the parser up, the others and help don't",
                              [z, most](Chooser& c)
                              {
                                  auto p = c.of(z.specs);
                                  p.auto_exit = c.flip();
                                  const auto route = c.of(std::vector<Route>{Route::PARSE, Route::PARSE_CONST, Route::ARGV, Route::ARGV_CONST, Route::ITERATE, Route::ITERATE_CONST});
                                  const auto line = pick_line(c, z.alphabet, most);
                                  auto parser = make_parser(p);
                                  const auto what = "entry point " + std::to_string(int(route)) + ", command line " + show(line) + "\n" + describe(p);
                                  std::ostringstream s;
                                  parser->stream(&s);
                                  parser->write_help_text();
                                  parser->stream(nullptr);
                                  c.step();
                                  real_run_on(*parser, p, line, route);
                                  const bool used = throws([&] { parser->stream(&s); });
                                  const bool one_shot = route == Route::PARSE || route == Route::ARGV || route == Route::ITERATE;
                                  if (used != one_shot)
                                      c.fail("misuse:consumption", what + (used ? "the parser was used up" : "the parser was not used up"));
                                  if (used)
                                  {
                                      for (auto& [n, f] : parser_calls())
                                          if (n.find("parse") != n.npos || n.find("iterator") != n.npos || n.find("help") != n.npos || n.find("add") != n.npos)
                                              if (!throws([&, &call = f] { call(*parser); }))
                                                  c.fail("misuse:consumption", what + n + " was accepted by a used-up parser");
                                  }
                                  c.trace();
                                  c.state(hash64(what));
                                  c.outcome(used ? "used up" : "still usable");
                              }});
    };
    consumption("consumption-flat", zoo_flat(), q ? 1 : 2);
    consumption("consumption-tree", zoo_tree(), q ? 1 : 2);
    return k;
}
