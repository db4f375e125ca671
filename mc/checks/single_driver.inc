// Everything a client can see of one definition and one command line, in
// words. Included twice: for the library and for the single-file distribution.
#include <sstream>

namespace mc
{
    namespace
    {
        std::string without_position(std::string s)
        {
            // exceptions name the source file they come from
            for (auto ext : {".cpp:", ".hpp:"})
            {
                auto p = s.find(ext);
                if (p == std::string::npos)
                    continue;
                p += 5;
                while (p < s.size() && isdigit((unsigned char)s[p]))
                    ++p;
                if (s.compare(p, 2, ": ") == 0)
                    return s.substr(p + 2);
            }
            return s;
        }

        template <typename F>
        void tell(std::ostream& o, const char* what, F f)
        {
            o << what << ": ";
            try
            {
                f();
            }
            catch (argos::ArgosException& e)
            {
                o << "exception " << without_position(e.what());
            }
            catch (ExitCalled& e)
            {
                o << "exit " << e.code;
            }
            o << "\n";
        }

        void tell_view(std::ostream& o, const argos::IArgumentView& v, const std::string& indent)
        {
            o << indent << "id " << v.id() << " value " << int(v.value_id()) << " argument " << int(v.argument_id()) << " visibility " << int(v.visibility()) << " section " << v.section() << " alias "
              << v.alias() << " help " << v.help();
            if (auto a = dynamic_cast<const argos::ArgumentView*>(&v))
                o << " argument " << a->name() << " " << a->count().first << ".." << a->count().second << " " << a->optional() << "\n";
            else if (auto p = dynamic_cast<const argos::OptionView*>(&v))
            {
                o << " option";
                for (auto& f : p->flags())
                    o << " " << f;
                o << " operation " << int(p->operation()) << " type " << int(p->type()) << " argument " << p->argument() << " constant " << p->constant() << " initial " << p->initial_value() << " "
                  << p->optional() << "\n";
            }
            else if (auto c = dynamic_cast<const argos::CommandView*>(&v))
            {
                o << " command " << c->name() << " " << c->require_subcommand() << "\n";
                for (auto& x : c->arguments())
                    tell_view(o, x, indent + "  ");
                for (auto& x : c->options())
                    tell_view(o, x, indent + "  ");
                for (auto& x : c->subcommands())
                    tell_view(o, x, indent + "  ");
            }
        }

        void tell_value(std::ostream& o, const argos::ArgumentValue& v)
        {
            tell(o, "present", [&] { o << bool(v) << (v.value() ? show(std::string(*v.value())) : "none"); });
            tell(o, "string", [&] { o << show(v.as_string("dflt")); });
            tell(o, "bool", [&] { o << v.as_bool(true); });
            for (int base : {0, 2, 8, 10, 16})
            {
                tell(o, "int", [&] { o << v.as_int(-3, base); });
                tell(o, "uint", [&] { o << v.as_uint(3, base); });
                tell(o, "long", [&] { o << v.as_long(-3, base); });
                tell(o, "ulong", [&] { o << v.as_ulong(3, base); });
                tell(o, "llong", [&] { o << v.as_llong(-3, base); });
                tell(o, "ullong", [&] { o << v.as_ullong(3, base); });
            }
            o.precision(20);
            tell(o, "float", [&] { o << v.as_float(0.5f); });
            tell(o, "double", [&] { o << v.as_double(0.5); });
            tell(o, "source", [&]
            {
                if (auto a = v.argument())
                    tell_view(o, *a, "");
            });
        }

        void tell_strings(std::ostream& o, const argos::ArgumentValues& v)
        {
            for (auto& s : v.as_strings({"dflt"}))
                o << show(s) << " ";
            o << "/ " << v.size() << v.empty() << bool(v);
            for (auto x : v)
                o << " " << x.as_string();
            for (auto& a : v.arguments())
                o << " " << (a ? a->id() : -1);
            for (auto& a : v.raw_values())
                o << " " << show(std::string(a));
        }

        void tell_values(std::ostream& o, const argos::ArgumentValues& v)
        {
            tell(o, "strings", [&] { tell_strings(o, v); });
            auto list = [&](auto xs)
            {
                o.precision(20);
                for (auto x : xs)
                    o << x << " ";
            };
            tell(o, "ints", [&] { list(v.as_ints({-3})); });
            tell(o, "uints", [&] { list(v.as_uints({3})); });
            tell(o, "longs", [&] { list(v.as_longs({-3}, 16)); });
            tell(o, "ulongs", [&] { list(v.as_ulongs({3}, 0)); });
            tell(o, "llongs", [&] { list(v.as_llongs({-3})); });
            tell(o, "ullongs", [&] { list(v.as_ullongs({3})); });
            tell(o, "floats", [&] { list(v.as_floats({0.5f})); });
            tell(o, "doubles", [&] { list(v.as_doubles({0.5})); });
            for (size_t lo = 0; lo < 3; ++lo)
                for (size_t hi = 0; hi < 4; ++hi)
                    tell(o, "split", [&] { tell_strings(o, v.split(',', lo, hi)); });
            tell(o, "split_n", [&] { tell_strings(o, v.split_n(',', 2)); });
            for (size_t i = 0; i <= v.size(); ++i)
                tell(o, "index", [&] { o << v.value(i).as_string("none"); });
            tell(o, "error", [&] { v.error("bad values"); });
        }

        void tell_result(std::ostream& o, const argos::ParsedArguments& r)
        {
            o << r.name() << " " << int(r.result_code()) << "\n";
            tell_view(o, r.command(), "");
            tell(o, "stop", [&] { tell_view(o, r.stop_option(), ""); });
            for (auto& u : r.unprocessed_arguments())
                o << "rest " << show(u) << "\n";
            auto one = [&](const argos::IArgumentView& v, const std::string& n)
            {
                o << n << " " << r.has(n) << r.has(v) << "\n";
                tell(o, "value", [&] { tell_value(o, r.value(n)); });
                tell(o, "by view", [&] { o << r.value(v).as_string("none"); });
                tell_values(o, r.values(n));
                tell(o, "error", [&]
                {
                    if (r.values(v).size() == 1)
                        r.value(v).error("bad value");
                });
            };
            for (auto& a : r.all_arguments())
            {
                tell_view(o, *a, "");
                one(*a, a->name());
            }
            for (auto& a : r.all_options())
            {
                tell_view(o, *a, "");
                for (auto& f : a->flags())
                    tell(o, "option", [&] { one(*a, f); });
            }
            for (auto& k : r.all_subcommands())
                tell_view(o, *k, "");
            tell(o, "error", [&] { r.error("bad result"); });
            for (auto& s : r.subcommands())
                tell_result(o, s);
        }

        std::string transcript(const ParserSpec& p, const Strs& line, int mode)
        {
            std::ostringstream o, custom;
            std::string out, err;
            {
                Capture cap;
                tell(o, "run", [&]
                {
                    switch (mode)
                    {
                    case 0: // parse and read everything
                    case 1: // through main's arguments
                    {
                        auto parser = make_parser(p);
                        if (p.custom_stream)
                            parser->stream(&custom);
                        std::vector<std::string_view> sv(line.begin(), line.end());
                        Strs tokens = line;
                        std::string prog = "some/where/prog";
                        std::vector<char*> argv{prog.data()};
                        for (auto& t : tokens)
                            argv.push_back(t.data());
                        argv.push_back(nullptr);
                        int argc = int(argv.size()) - 1;
                        char** av = argv.data();
                        RunLog log;
                        g_log = &log;
                        auto done = [&]
                        {
                            g_log = nullptr;
                            o << "callbacks:\n" << text(log.events);
                        };
                        try
                        {
                            auto r = mode == 0 ? std::as_const(*parser).parse(sv) : parser->parse(argc, av);
                            done();
                            tell_result(o, r);
                            print(r, o);
                            r.filter_parsed_arguments(argc, av);
                            for (int i = 0; i < argc; ++i)
                                o << "\nargv " << av[i];
                        }
                        catch (...)
                        {
                            done();
                            throw;
                        }
                        break;
                    }
                    case 2: // step by step
                    {
                        auto r = real_run(p, line, Route::ITERATE);
                        r.what = without_position(r.what);
                        o << int(r.end) << " " << r.exit_code << " " << r.what << " " << text(r.root, true) << text(r.events) << r.custom << r.out << r.err;
                        for (auto& s : r.steps)
                            o << s.kind << s.id << " " << s.value << " " << s.snapshot << "\n";
                        break;
                    }
                    case 3: // help
                    {
                        auto parser = make_parser(p);
                        if (p.custom_stream)
                            parser->stream(&custom);
                        parser->add_word_splitting_rule("com pli cat-ed");
                        if (line.empty())
                            parser->write_help_text();
                        else
                            parser->write_subcommand_help_text(line);
                        o << parser->program_name() << parser->allow_abbreviated_options() << parser->auto_exit() << parser->case_insensitive() << parser->generate_help_option()
                          << int(parser->option_style()) << parser->require_subcommand().value_or(false) << parser->allow_multiple_subcommands() << parser->ignore_undefined_arguments()
                          << parser->ignore_undefined_options() << parser->current_section() << (parser->stream() != nullptr) << bool(parser->option_callback()) << bool(parser->argument_callback());
                        break;
                    }
                    }
                });
                out = cap.out();
                err = cap.err();
            }
            return o.str() + "\nstream:\n" + custom.str() + "\nstdout:\n" + out + "\nstderr:\n" + err;
        }

        std::string constants()
        {
            std::ostringstream o;
            o << ARGOS_VERSION << " " << ARGOS_VERSION_MAJOR << "." << ARGOS_VERSION_MINOR << "." << ARGOS_VERSION_PATCH << "\n";
            for (auto x : {Op::NONE, Op::ASSIGN, Op::APPEND, Op::CLEAR})
                o << int(x) << " ";
            for (auto x : {Type::NORMAL, Type::HELP, Type::STOP, Type::EXIT, Type::LAST_ARGUMENT, Type::LAST_OPTION})
                o << int(x) << " ";
            for (auto x : {Style::STANDARD, Style::SLASH, Style::DASH})
                o << int(x) << " ";
            for (auto x : {Vis::HIDDEN, Vis::USAGE, Vis::TEXT, Vis::NORMAL})
                o << int(x) << " ";
            for (auto x : {Code::NONE, Code::SUCCESS, Code::STOP, Code::FAILURE})
                o << int(x) << " ";
            for (auto x : {TextId::INITIAL_TEXT, TextId::USAGE_TITLE, TextId::USAGE, TextId::ABOUT, TextId::SUBCOMMANDS_TITLE, TextId::ARGUMENTS_TITLE, TextId::OPTIONS_TITLE, TextId::FINAL_TEXT,
                           TextId::ERROR_USAGE, TextId::HELP})
                o << int(x) << " " << to_string(x) << " ";
            argos::ArgumentParser p("a/b.c");
            o << p.program_name() << argos::ArgumentParser("a/b.c", false).program_name() << argos::ArgumentParser().program_name();
            return o.str();
        }
    }
}
