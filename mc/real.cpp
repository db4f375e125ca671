// Drives the real library through its public interface and records what can
// be observed.
#include "engine.hpp"
#include "spec.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <sys/ioctl.h>
#include <iostream>
#include <set>
#include <sstream>

#ifndef MC_SINGLE
mc::Console mc_console;

// The console-width query of the library (linked with --wrap=ioctl).
extern "C" int __wrap_ioctl(int fd, unsigned long request, ...)
{
    va_list ap;
    va_start(ap, request);
    auto* w = va_arg(ap, winsize*);
    va_end(ap);
    auto& c = mc_console;
    const size_t n = size_t(c.calls++);
    const int columns = fd != 1 ? c.elsewhere : n && !c.then.empty() ? c.then[std::min(n, c.then.size()) - 1] : c.columns;
    if (request != TIOCGWINSZ || columns < 0)
    {
        if (request == TIOCGWINSZ && c.scribble)
        {
            memset(w, 0, sizeof *w);
            w->ws_col = static_cast<unsigned short>(c.scribble);
        }
        errno = c.error;
        return -1;
    }
    memset(w, 0, sizeof *w);
    w->ws_col = static_cast<unsigned short>(columns);
    w->ws_row = 25;
    w->ws_xpixel = 777;
    w->ws_ypixel = 555;
    return 0;
}
#endif

namespace mc
{
#ifndef MC_SINGLE
    Console& console() { return mc_console; }
#endif

    thread_local RunLog* g_log = nullptr;

    const char* name(Code c)
    {
        switch (c)
        {
        case Code::NONE: return "NONE";
        case Code::SUCCESS: return "SUCCESS";
        case Code::STOP: return "STOP";
        case Code::FAILURE: return "FAILURE";
        default: return "?";
        }
    }

    // ------------------------------------------------------------ numbering
    namespace
    {
        void number_cmd(CmdSpec& c, int& n, bool root)
        {
            auto give = [&](int& id)
            {
                if (!id)
                    id = ++n;
            };
            if (!root) // the program itself has no id
                give(c.id);
            for (auto& a : c.args)
                give(a.id);
            for (auto& o : c.opts)
                give(o.id);
            for (auto& s : c.cmds)
                number_cmd(s, n, false);
        }

        std::string describe_acts(const std::vector<Act>& acts)
        {
            static const char* kinds[] = {"ASSIGN", "APPEND", "CLEAR", "INSERT", "ERROR", "ERROR_ARG",
                                          "VIEW_ASSIGN", "VIEW_APPEND", "VIEW_CLEAR"};
            std::string r;
            for (auto& a : acts)
                r += std::string(" !") + kinds[a.kind] + "(" + a.name + (a.name.empty() ? "" : ",") + show(a.vals)
                     + (a.max_uses != 1 ? ",x" + std::to_string(a.max_uses) : "") + ")";
            return r;
        }

        std::string looks(Vis v, const std::string& section, const std::string& help)
        {
            return std::string(v == Vis::NORMAL ? "" : v == Vis::HIDDEN ? " HIDDEN" : v == Vis::USAGE ? " USAGE" : " TEXT")
                   + (section.empty() ? "" : " section=" + section) + (help.empty() ? "" : " help=" + show(help));
        }

        std::string describe_cmd(const CmdSpec& c, const std::string& ind)
        {
            static const char* ops[] = {"NONE", "ASSIGN", "APPEND", "CLEAR"};
            static const char* types[] = {"NORMAL", "HELP", "STOP", "EXIT", "LAST_ARGUMENT", "LAST_OPTION"};
            (void)types;
            auto type = [](Type t) -> std::string
            {
                switch (t)
                {
                case Type::NORMAL: return "";
                case Type::HELP: return " HELP";
                case Type::STOP: return " STOP";
                case Type::EXIT: return " EXIT";
                case Type::LAST_ARGUMENT: return " LAST_ARGUMENT";
                case Type::LAST_OPTION: return " LAST_OPTION";
                }
                return " ?";
            };
            auto op = [](Op o) -> std::string
            {
                switch (o)
                {
                case Op::NONE: return " NONE";
                case Op::ASSIGN: return "";
                case Op::APPEND: return " APPEND";
                case Op::CLEAR: return " CLEAR";
                }
                return " ?";
            };
            (void)ops;
            std::string r = ind + "cmd " + c.name + " id=" + std::to_string(c.id)
                            + (c.multi ? " multi" : "") + (c.require ? (*c.require ? " require" : " no-require") : "")
                            + (c.way ? " way=" + std::to_string(c.way) : "") + looks(c.visibility, c.section, "")
                            + (c.current.empty() ? "" : " current=" + c.current);
            for (auto& [i, t] : c.texts)
                r += " " + to_string(i) + (c.text_functions.count(i) ? "()=" : "=") + show(t);
            r += "\n";
            for (auto& a : c.args)
                r += ind + "  arg " + a.name + " " + std::to_string(a.min) + ".." + std::to_string(a.max)
                     + (a.alias.empty() ? "" : " alias=" + a.alias) + " id=" + std::to_string(a.id) + describe_acts(a.acts) + looks(a.visibility, a.section, a.help)
                     + (a.callback ? "" : " silent") + (a.text_function ? " help()" : "") + "\n";
            for (auto& o : c.opts)
            {
                r += ind + "  opt";
                for (auto& f : o.flags)
                    r += " " + f;
                r += op(o.op) + type(o.type) + (o.argument.empty() ? "" : " argument=" + o.argument)
                     + (o.constant.empty() ? "" : " constant=" + o.constant)
                     + (o.initial.empty() ? "" : " initial=" + o.initial)
                     + (o.alias.empty() ? "" : " alias=" + o.alias) + (o.optional ? "" : " mandatory")
                     + " id=" + std::to_string(o.id) + describe_acts(o.acts) + looks(o.visibility, o.section, o.help)
                     + (o.callback ? "" : " silent") + (o.text_function ? " help()" : "") + "\n";
            }
            for (auto& s : c.cmds)
                r += describe_cmd(s, ind + "  ");
            return r;
        }
    }

    void number(ParserSpec& p)
    {
        int n = 0;
        number_cmd(p.root, n, true);
    }

    std::string describe(const ParserSpec& p)
    {
        std::string r = "parser style=";
        r += p.style == Style::STANDARD ? "STANDARD" : p.style == Style::SLASH ? "SLASH" : "DASH";
        for (auto [on, nm] : std::initializer_list<std::pair<bool, const char*>>{
                 {p.abbrev, "abbrev"}, {p.ci, "case-insensitive"}, {p.ign_opt, "ignore-options"},
                 {p.ign_arg, "ignore-arguments"}, {p.gen_help, "help"}, {p.auto_exit, "auto-exit"},
                 {!p.version.empty(), "version"}, {p.opt_cb, "option-callback"}, {p.arg_cb, "argument-callback"}})
            if (on)
                r += std::string(" ") + nm;
        r += describe_acts(p.opt_acts) + describe_acts(p.arg_acts);
        return r + "\n" + describe_cmd(p.root, "  ");
    }

    // ------------------------------------------------------------ rendering
    std::string text(const CmdOut& c, bool with_codes)
    {
        std::string r = c.name + "#" + std::to_string(c.id) + "{";
        if (with_codes)
        {
            r += name(c.code);
            if (c.stop != -1)
                r += " stop=" + std::to_string(c.stop);
        }
        for (auto& [n, vs] : c.values)
        {
            r += " " + n + "=[";
            for (auto& v : vs)
                r += show(v.text) + "@" + std::to_string(v.src) + " ";
            r += "]";
        }
        if (!c.unprocessed.empty())
            r += " rest=" + show(c.unprocessed);
        for (auto& s : c.subs)
            r += " " + text(s, with_codes);
        return r + "}";
    }

    std::string text(const std::vector<Event>& ev)
    {
        std::string r;
        for (auto& e : ev)
            r += std::string(1, e.kind) + std::to_string(e.id) + " value=" + show(e.value) + " sees " + e.snapshot + "\n";
        return r;
    }

    static std::string text(const std::vector<Step>& ev)
    {
        std::string r;
        for (auto& e : ev)
            r += std::string(1, e.kind) + std::to_string(e.id) + (e.kind == 'C' ? std::string() : " value=" + show(e.value))
                 + " -> " + e.snapshot + "\n";
        return r;
    }

    // -------------------------------------------------------------- capture
    struct Capture::Impl
    {
        std::ostringstream o, e;
        std::streambuf* oldo;
        std::streambuf* olde;
    };

    Capture::Capture() : impl(std::make_unique<Impl>())
    {
        impl->oldo = std::cout.rdbuf(impl->o.rdbuf());
        impl->olde = std::cerr.rdbuf(impl->e.rdbuf());
    }

    Capture::~Capture()
    {
        std::cout.rdbuf(impl->oldo);
        std::cerr.rdbuf(impl->olde);
        std::cout.clear();
        std::cerr.clear();
    }

    std::string Capture::out() const { return impl->o.str(); }
    std::string Capture::err() const { return impl->e.str(); }

    // ------------------------------------------------------------- builders
    namespace
    {
        Val to_val(const argos::ArgumentValue& v)
        {
            Val r;
            r.text = v.as_string();
            if (auto a = v.argument())
                r.src = a->id();
            return r;
        }

        std::vector<Val> to_vals(const argos::ArgumentValues& vs)
        {
            std::vector<Val> r;
            for (auto& v : vs.values())
                r.push_back(to_val(v));
            return r;
        }

        struct Names
        {
            std::string cmd;
            int id;
            std::set<std::string> names;
        };

        std::shared_ptr<Names> declared_names(const CmdSpec& c)
        {
            auto r = std::make_shared<Names>();
            r->cmd = c.name;
            r->id = c.id;
            for (auto& a : c.args)
            {
                r->names.insert(a.name);
                if (!a.alias.empty())
                    r->names.insert(a.alias);
            }
            for (auto& o : c.opts)
                if (o.op != Op::NONE)
                {
                    r->names.insert(o.flags.begin(), o.flags.end());
                    if (!o.alias.empty())
                        r->names.insert(o.alias);
                }
            return r;
        }

        template <typename Builder>
        std::string snapshot(const Builder& b, const Names* n)
        {
            if (!n)
                return {};
            CmdOut c;
            c.name = n->cmd;
            c.id = n->id;
            for (auto& x : n->names)
                c.values.emplace_back(x, to_vals(b.values(x)));
            std::string r = text(c, false);
            for (auto& [x, vs] : c.values)
            {
                if (b.has(x) != !vs.empty())
                    r += " !has(" + x + ")";
                if (vs.size() < 2)
                {
                    const auto v = b.value(x);
                    if (bool(v) != !vs.empty() || (v && !(to_val(v) == vs[0])))
                        r += " !value(" + x + ")";
                }
            }
            return r;
        }

        // Reading by the view is the same as reading by its name.
        template <typename Builder, typename View>
        void read_view(const Builder& b, const View& view, int id, const Names* names, RunLog& log)
        {
            if (!names)
                return;
            std::string n;
            if constexpr (std::is_same_v<View, argos::OptionView>)
            {
                if (view.operation() == Op::NONE)
                    return;
                n = view.flags()[0];
            }
            else
                n = view.name();
            const auto vs = to_vals(b.values(n));
            if (to_vals(b.values(view)) != vs || b.has(view) != b.has(n)
                || (vs.size() == 1 && !(to_val(b.value(view)) == vs[0])) || (vs.empty() && b.value(view)))
                log.events.push_back({'!', id, "reading by view and by name differ", n});
        }

        template <typename Args>
        void run_callback(char kind, Args& a, const std::vector<Act>& acts, const Names* names)
        {
            if (!g_log)
                return;
            const int id = a.view.id();
            g_log->events.push_back({kind, id, std::string(a.value), snapshot(a.builder, names)});
            client_call();
            const auto index = g_log->events.size() - 1;
            for (auto& act : acts)
            {
                if (g_log->uses[&act]++ >= act.max_uses)
                    continue;
                switch (act.kind)
                {
                case Act::ASSIGN: a.builder.assign(act.name, act.vals[0]); break;
                case Act::APPEND: a.builder.append(act.name, act.vals[0]); break;
                case Act::CLEAR: a.builder.clear(act.name); break;
                case Act::VIEW_ASSIGN: a.builder.assign(a.view, act.vals[0]); break;
                case Act::VIEW_APPEND: a.builder.append(a.view, act.vals[0]); break;
                case Act::VIEW_CLEAR: a.builder.clear(a.view); break;
                case Act::INSERT:
                    a.new_arguments.insert(a.new_arguments.end(), act.vals.begin(), act.vals.end());
                    break;
                case Act::ERROR: a.builder.error(act.vals[0]);
                case Act::ERROR_ARG: a.builder.error(act.vals[0], a.view);
                }
            }
            if (!acts.empty())
                g_log->events.push_back({'.', id, g_log->events[index].value, snapshot(a.builder, names)});
            read_view(a.builder, a.view, id, names, *g_log);
            // the delivered value is still readable and unchanged
            if (std::string(a.value) != g_log->events[index].value)
                g_log->events[index].value += " (later: " + std::string(a.value) + ")";
        }

        argos::Option build(const OptSpec& o, std::shared_ptr<Names> names)
        {
            argos::Option r;
            r.flags(o.flags);
            if (!o.argument.empty())
                r.argument(o.argument);
            if (!o.constant.empty())
                r.constant(o.constant);
            if (!o.initial.empty())
                r.initial_value(o.initial);
            if (!o.alias.empty())
                r.alias(o.alias);
            r.operation(o.op).type(o.type).optional(o.optional).id(o.id);
            if (!o.help.empty())
            {
                if (o.text_function)
                    r.help([h = o.help] { client_call(); return h; });
                else
                    r.help(o.help);
            }
            if (!o.section.empty())
                r.section(o.section);
            r.visibility(o.visibility);
            if (o.callback)
                r.callback([names, acts = std::make_shared<std::vector<Act>>(o.acts)](argos::OptionCallbackArguments& a)
                {
                    run_callback('o', a, *acts, names.get());
                });
            return r;
        }

        argos::Argument build(const ArgSpec& a, std::shared_ptr<Names> names)
        {
            argos::Argument r(a.name);
            r.count(a.min, a.max).id(a.id);
            if (!a.alias.empty())
                r.alias(a.alias);
            if (!a.help.empty())
            {
                if (a.text_function)
                    r.help([h = a.help] { client_call(); return h; });
                else
                    r.help(a.help);
            }
            if (!a.section.empty())
                r.section(a.section);
            r.visibility(a.visibility);
            if (a.callback)
                r.callback([names, acts = std::make_shared<std::vector<Act>>(a.acts)](argos::ArgumentCallbackArguments& x)
                {
                    run_callback('a', x, *acts, names.get());
                });
            return r;
        }

        void collect(const CmdSpec& c, std::map<int, std::shared_ptr<Names>>& m)
        {
            auto n = declared_names(c);
            for (auto& a : c.args)
                m[a.id] = n;
            for (auto& o : c.opts)
                m[o.id] = n;
            for (auto& s : c.cmds)
                collect(s, m);
        }
    }

    argos::Option make_option(const OptSpec& o) { return build(o, nullptr); }
    argos::Argument make_argument(const ArgSpec& a) { return build(a, nullptr); }

    namespace
    {
        template <typename T>
        void add_text(T& to, const CmdSpec& c, TextId id, const std::string& t)
        {
            if (c.text_functions.count(id))
                to.text(id, [t] { client_call(); return t; });
            else
                to.text(id, t);
        }
    }

    argos::Command make_command(const CmdSpec& c)
    {
        argos::Command r(c.name);
        auto names = declared_names(c);
        r.id(c.id);
        if (c.multi)
            r.allow_multiple_subcommands(true);
        if (c.require)
            r.require_subcommand(*c.require);
        if (!c.section.empty())
            r.section(c.section);
        for (auto& [id, t] : c.texts)
            add_text(r, c, id, t);
        r.visibility(c.visibility);
        for (auto& a : c.args)
            r.add(build(a, names));
        for (auto& o : c.opts)
            r.add(build(o, names));
        for (auto& s : c.cmds)
            r.add(make_command(s));
        if (!c.current.empty())
            r.current_section(c.current);
        switch (c.way)
        {
        case CmdSpec::DIRECT:
        case CmdSpec::WAYS:
            break;
        case CmdSpec::COPY:
        {
            argos::Command x(r);
            r.add(argos::Option{"--only-in-the-original"});
            r.text(TextId::INITIAL_TEXT, "only in the original");
            return x;
        }
        case CmdSpec::COPY_ASSIGN:
        {
            argos::Command x("another");
            x.add(argos::Option{"--overwritten"}).visibility(Vis::HIDDEN).section("overwritten").help("overwritten");
            x = r;
            r.add(argos::Option{"--only-in-the-original"});
            r.text(TextId::INITIAL_TEXT, "only in the original");
            return x;
        }
        case CmdSpec::MOVE_ASSIGN:
        {
            argos::Command x("another");
            x.add(argos::Option{"--overwritten"}).visibility(Vis::HIDDEN).section("overwritten").help("overwritten");
            x = std::move(r);
            return x;
        }
        case CmdSpec::COPY_FROM:
        {
            // contents only
            argos::Command x(c.name);
            x.id(c.id).visibility(c.visibility).section(c.section);
            if (!c.current.empty())
                x.current_section(c.current);
            if (c.require)
                x.require_subcommand(*c.require);
            x.copy_from(r);
            return x;
        }
        case CmdSpec::COPY_ADD:
        {
            // the same definition is added elsewhere first
            argos::Command x(r), elsewhere("elsewhere");
            elsewhere.current_section("elsewhere").add(x);
            argos::Command y(r);
            elsewhere.add(r);
            return y;
        }
        }
        return r;
    }

    std::unique_ptr<argos::ArgumentParser> make_parser(const ParserSpec& p)
    {
        auto r = std::make_unique<argos::ArgumentParser>(p.root.name, false);
        r->option_style(p.style).allow_abbreviated_options(p.abbrev).case_insensitive(p.ci)
            .ignore_undefined_options(p.ign_opt).ignore_undefined_arguments(p.ign_arg)
            .generate_help_option(p.gen_help).auto_exit(p.auto_exit)
            .set_exit_codes(p.error_code, p.normal_code);
        if (!p.version.empty())
            r->version(p.version);
        if (p.line_width)
            r->line_width(p.line_width);
        const auto& c = p.root;
        auto names = declared_names(c);
        if (c.multi)
            r->allow_multiple_subcommands(true);
        if (c.require)
            r->require_subcommand(*c.require);
        if (c.way != CmdSpec::DIRECT)
        {
            auto contents = c;
            contents.way = c.way == CmdSpec::COPY_FROM ? CmdSpec::DIRECT : c.way;
            r->copy_from(make_command(contents));
        }
        else
        {
            for (auto& [id, t] : c.texts)
                add_text(*r, c, id, t);
            for (auto& a : c.args)
                r->add(build(a, names));
            for (auto& o : c.opts)
                r->add(build(o, names));
            for (auto& s : c.cmds)
                r->add(make_command(s));
        }
        if (!c.current.empty())
            r->current_section(c.current);
        auto index = std::make_shared<std::map<int, std::shared_ptr<Names>>>();
        collect(c, *index);
        if (p.opt_cb)
            r->option_callback([index, acts = std::make_shared<std::vector<Act>>(p.opt_acts)]
                (argos::OptionCallbackArguments& a)
                {
                    auto it = index->find(a.view.id());
                    run_callback('O', a, *acts, it == index->end() ? nullptr : it->second.get());
                });
        if (p.arg_cb)
            r->argument_callback([index, acts = std::make_shared<std::vector<Act>>(p.arg_acts)]
                (argos::ArgumentCallbackArguments& a)
                {
                    auto it = index->find(a.view.id());
                    run_callback('A', a, *acts, it == index->end() ? nullptr : it->second.get());
                });
        return r;
    }

    // ----------------------------------------------------------- observation
    CmdOut observe(const argos::ParsedArguments& pa, bool views)
    {
        CmdOut c;
        c.name = std::string(pa.name());
        c.id = pa.command().id();
        c.code = pa.result_code();
        c.stop = -1;
        try
        {
            const auto s = pa.stop_option();
            c.stop = c.code == Code::STOP ? s.id() : -2;
        }
        catch (argos::ArgosException&)
        {
            if (c.code == Code::STOP)
                c.stop = -3;
        }
        c.unprocessed = pa.unprocessed_arguments();
        std::set<std::string> names;
        for (auto& a : pa.all_arguments())
        {
            names.insert(a->name());
            if (!a->alias().empty())
                names.insert(a->alias());
        }
        for (auto& o : pa.all_options())
        {
            if (o->operation() == Op::NONE)
                continue;
            for (auto& f : o->flags())
                names.insert(f);
            if (!o->alias().empty())
                names.insert(o->alias());
        }
        for (auto& n : names)
            c.values.emplace_back(n, to_vals(pa.values(n)));
        if (views)
        {
            // Whatever is reached by name must look the same by view.
            auto same = [&](const argos::IArgumentView& v, const std::string& n)
            {
                const auto a = to_vals(pa.values(v)), b = to_vals(pa.values(n));
                if (a != b)
                    c.values.emplace_back("the view of " + n + " has other values", a);
                if (pa.has(v) != !b.empty() || pa.has(n) != !b.empty())
                    c.values.emplace_back("has() is wrong for " + n, a);
            };
            for (auto& a : pa.all_arguments())
                same(*a, a->name());
            for (auto& o : pa.all_options())
                if (o->operation() != Op::NONE)
                    same(*o, o->flags().back());
        }
        for (auto& s : pa.subcommands())
            c.subs.push_back(observe(s, views));
        return c;
    }

    namespace
    {
        Outcome drive_iterator(argos::ArgumentIterator& it, Outcome& o)
        {
            auto root = it.parsed_arguments();
            std::unique_ptr<argos::IArgumentView> view;
            std::string_view value;
            bool in_command = false;
            while (it.next(view, value))
            {
                Step s;
                s.kind = 'U';
                s.id = 0;
                if (view)
                {
                    s.id = view->id();
                    if (dynamic_cast<argos::OptionView*>(view.get()))
                        s.kind = 'O';
                    else if (dynamic_cast<argos::ArgumentView*>(view.get()))
                        s.kind = 'A';
                    else if (dynamic_cast<argos::CommandView*>(view.get()))
                        s.kind = 'C';
                    else
                        s.kind = '?';
                }
                s.value = std::string(value);
                s.snapshot = text(observe(root, false), false);
                // The iterator hands out the same, whole result at any time.
                in_command = in_command || s.kind == 'C';
                if (in_command && text(observe(it.parsed_arguments(), false), false) != s.snapshot)
                    o.steps.push_back({'?', -1, "another result from the iterator", ""});
                o.steps.push_back(std::move(s));
            }
            if (view || !value.empty())
                o.steps.push_back({'?', -1, "view or value left at the end", ""});
            o.root = observe(root);
            if (text(observe(it.parsed_arguments()), true) != text(o.root, true))
                o.steps.push_back({'?', -1, "another result from the iterator at the end", ""});
            if (o.root.code != Code::FAILURE)
            {
                for (int i = 0; i < 2; ++i)
                    if (it.next(view, value))
                        o.steps.push_back({'?', -1, "step after the end", ""});
                auto again = observe(root);
                if (text(again, true) != text(o.root, true))
                    o.steps.push_back({'?', -1, "results changed by stepping past the end", text(again, true)});
            }
            else
            {
                try
                {
                    it.next(view, value);
                    o.steps.push_back({'?', -1, "no exception when iterating after an error", ""});
                }
                catch (argos::ArgosException&)
                {
                }
            }
            return o;
        }
    }

    Outcome real_run_on(argos::ArgumentParser& parser, const ParserSpec& p, const Strs& line, Route route)
    {
        Outcome o;
        RunLog log;
        auto* old = g_log;
        g_log = &log;
        // The tokens live only as long as the call that is given them.
        auto tokens = std::make_unique<std::vector<std::string>>(line);
        std::vector<std::string_view> sv(tokens->begin(), tokens->end());
        std::string prog = p.root.name;
        std::vector<char*> argv{prog.data()};
        for (auto& t : *tokens)
            argv.push_back(t.data());
        argv.push_back(nullptr);
        const int argc = int(tokens->size()) + 1;
        {
            Capture cap;
            try
            {
                const auto& cp = parser;
                std::optional<argos::ParsedArguments> pa;
                switch (route)
                {
                case Route::PARSE: pa = parser.parse(std::move(sv)); break;
                case Route::PARSE_CONST: pa = cp.parse(std::move(sv)); break;
                case Route::ARGV: pa = parser.parse(argc, argv.data()); break;
                case Route::ARGV_CONST: pa = cp.parse(argc, argv.data()); break;
                case Route::ITERATE:
                {
                    auto it = parser.make_iterator(std::move(sv));
                    tokens.reset();
                    drive_iterator(it, o);
                    break;
                }
                case Route::ITERATE_CONST:
                {
                    auto it = cp.make_iterator(std::move(sv));
                    tokens.reset();
                    drive_iterator(it, o);
                    break;
                }
                }
                tokens.reset();
                if (pa)
                    o.root = observe(*pa);
                o.failed = o.root.code == Code::FAILURE;
            }
            catch (ExitCalled& e)
            {
                o.end = Outcome::EXITED;
                o.exit_code = e.code;
            }
            catch (argos::ArgosException& e)
            {
                o.end = Outcome::THREW;
                o.what = e.what();
            }
            o.out = cap.out();
            o.err = cap.err();
        }
        g_log = old;
        o.events = std::move(log.events);
        return o;
    }

    Outcome real_run(const ParserSpec& p, const Strs& line, Route route)
    {
        auto parser = make_parser(p);
        std::ostringstream custom;
        if (p.custom_stream)
            parser->stream(&custom);
        auto o = real_run_on(*parser, p, line, route);
        o.custom = custom.str();
        return o;
    }

#ifndef MC_SINGLE
    // ------------------------------------------------------------ comparing
    namespace
    {
        CmdOut strip(CmdOut c, const CompareOpts& o)
        {
            if (!o.values)
                c.values.clear();
            if (!o.codes)
            {
                c.code = Code::NONE;
                c.stop = -1;
            }
            if (!o.sources)
                for (auto& [n, vs] : c.values)
                    for (auto& v : vs)
                        v.src = 0;
            if (!o.unprocessed)
                c.unprocessed.clear();
            for (auto& s : c.subs)
                s = strip(s, o);
            return c;
        }

        std::string end_text(const Outcome& x)
        {
            switch (x.end)
            {
            case Outcome::EXITED: return "exit(" + std::to_string(x.exit_code) + ")";
            case Outcome::THREW: return "exception " + x.what;
            default: return x.failed ? "failure" : std::string("returns ") + name(x.root.code);
            }
        }
    }

    void compare_with(Chooser& c, const ParserSpec& p, const Strs& line, const Outcome& m, const Outcome& r,
                      const CompareOpts& o)
    {
        auto bad = [&](const std::string& what, const std::string& exp, const std::string& got)
        {
            std::string errs;
            for (auto& e : m.errors)
                errs += "  (model error for '" + e.command + "': " + show(e.mentions) + ")\n";
            c.fail(o.what + ":" + what, "command line " + show(line) + "\n" + describe(p) + what + " differs\nexpected: " + exp
                   + "\nobserved: " + got + "\n" + errs
                   + (r.custom.empty() ? "" : "stream: " + r.custom) + (r.out.empty() ? "" : "stdout: " + r.out)
                   + (r.err.empty() ? "" : "stderr: " + r.err));
        };
        if (m.end != r.end || (m.end == Outcome::RETURNED && m.failed != r.failed)
            || (m.end == Outcome::EXITED && m.exit_code != r.exit_code))
            bad("ending", end_text(m), end_text(r));
        if (o.events && text(m.events) != text(r.events))
            bad("callbacks", "\n" + text(m.events), "\n" + text(r.events));
        if (m.end == Outcome::RETURNED)
        {
            if (!m.failed)
            {
                const auto a = text(strip(m.root, o), o.codes), b = text(strip(r.root, o), o.codes);
                if (a != b)
                    bad("result", a, b);
            }
            else if (o.failed_codes)
            {
                CompareOpts only = o;
                only.values = only.unprocessed = false;
                const auto a = text(strip(m.root, only), true), b = text(strip(r.root, only), true);
                if (a != b)
                    bad("status", a, b);
            }
            if (o.iterate)
            {
                const auto a = text(m.steps), b = text(r.steps);
                if (a != b)
                    bad("steps", "\n" + a, "\n" + b);
            }
        }
        if (o.errors)
        {
            const auto& msg = p.custom_stream ? r.custom : r.err;
            if (m.errors.empty())
            {
                if (m.help_for.empty() && !m.version_shown && (!r.custom.empty() || !r.err.empty() || !r.out.empty()))
                    bad("output", "none", r.custom + r.err + r.out);
            }
            else
            {
                const auto first = msg.substr(0, msg.find('\n'));
                bool ok = false;
                std::string want;
                for (auto& e : m.errors)
                {
                    want += e.command + ": ... " + show(e.mentions) + " or ";
                    if (first.rfind(e.command + ": ", 0) != 0)
                        continue;
                    bool all = true;
                    for (auto& x : e.mentions)
                        all = all && first.find(x, e.command.size() + 2) != std::string::npos;
                    ok = ok || all;
                }
                if (!ok)
                    bad("error message", want, first);
            }
        }
    }

    Outcome compare(Chooser& c, const ParserSpec& p, const Strs& line, const CompareOpts& o, Route route)
    {
        auto m = model_run(p, line);
        c.step(m.steps_taken);
        const auto h = hash64(describe(p));
        for (auto s : m.states)
            c.state(s ^ h);
        if (m.undefined)
        {
            c.outcome("left open: " + m.why_undefined);
            return m;
        }
        c.trace();
        auto r = real_run(p, line, route);
        compare_with(c, p, line, m, r, o);
        c.outcome(end_text(m));
        c.sample([&] { return show(line) + " -> " + end_text(m) + (m.failed || m.end != Outcome::RETURNED ? "" : " " + text(m.root, false)); });
        return m;
    }
#endif
}
