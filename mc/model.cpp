// Reference model of command-line parsing, written from the documentation
// (README, header comments), as a plain left-to-right interpreter over a list
// of pending tokens.  No index structures, no cursors into shared buffers.
#include "engine.hpp"
#include "spec.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <set>
#include <stdexcept>

namespace mc
{
    namespace
    {
        std::string lower(std::string s)
        {
            for (auto& c : s)
                if (c >= 'A' && c <= 'Z')
                    c = char(c - 'A' + 'a');
            return s;
        }

        // A command with everything the library adds to it.
        struct ECmd
        {
            CmdSpec spec;
            std::string full_name;
            bool require = false;
            bool is_root = false;
            std::list<ECmd> children;
            // linked values
            std::map<std::string, int> name_group;
            std::set<std::string> declared; // by the client
            std::vector<int> arg_group, opt_group;
            int groups = 0;
        };

        bool has_flag(const CmdSpec& c, const std::string& f, bool ci)
        {
            for (auto& o : c.opts)
                for (auto& g : o.flags)
                    if (ci ? lower(g) == lower(f) : g == f)
                        return true;
            return false;
        }

        void link_names(ECmd& e)
        {
            // connected components of the name graph
            std::map<std::string, std::set<std::string>> adj;
            auto connect = [&](const Strs& names)
            {
                for (auto& n : names)
                {
                    adj[n].insert(names[0]);
                    adj[names[0]].insert(n);
                }
            };
            auto arg_names = [](const ArgSpec& a)
            {
                Strs n{a.name};
                if (!a.alias.empty())
                    n.push_back(a.alias);
                return n;
            };
            auto opt_names = [](const OptSpec& o)
            {
                Strs n = o.flags;
                if (!o.alias.empty())
                    n.push_back(o.alias);
                return n;
            };
            for (auto& a : e.spec.args)
                connect(arg_names(a));
            for (auto& o : e.spec.opts)
                if (o.op != Op::NONE)
                    connect(opt_names(o));
            for (auto& [n, _] : adj)
            {
                if (e.name_group.count(n))
                    continue;
                const int g = e.groups++;
                std::vector<std::string> todo{n};
                while (!todo.empty())
                {
                    auto x = todo.back();
                    todo.pop_back();
                    if (!e.name_group.emplace(x, g).second)
                        continue;
                    for (auto& y : adj[x])
                        todo.push_back(y);
                }
            }
            for (auto& a : e.spec.args)
                e.arg_group.push_back(e.name_group[a.name]);
            for (auto& o : e.spec.opts)
                e.opt_group.push_back(o.op == Op::NONE ? -1 : e.name_group[o.flags[0]]);
        }

        void expand(ECmd& e, const CmdSpec& c, const ParserSpec& p, const std::string& parent)
        {
            e.spec = c;
            e.full_name = parent.empty() ? c.name : parent + " " + c.name;
            e.is_root = parent.empty();
            e.require = c.require.value_or(!c.cmds.empty());
            for (auto& a : c.args)
            {
                e.declared.insert(a.name);
                if (!a.alias.empty())
                    e.declared.insert(a.alias);
            }
            for (auto& o : c.opts)
                if (o.op != Op::NONE)
                {
                    e.declared.insert(o.flags.begin(), o.flags.end());
                    if (!o.alias.empty())
                        e.declared.insert(o.alias);
                }
            if (e.is_root && !p.version.empty())
            {
                const std::string f = p.style == Style::STANDARD ? "--version"
                                      : p.style == Style::SLASH ? "/VERSION" : "-version";
                if (!has_flag(e.spec, f, p.ci))
                {
                    auto o = opt({f});
                    o.type = Type::STOP;
                    o.id = -1000;
                    o.callback = false;
                    e.spec.opts.push_back(o);
                }
            }
            if (p.gen_help && std::none_of(e.spec.opts.begin(), e.spec.opts.end(),
                                           [](auto& o) { return o.type == Type::HELP; }))
            {
                Strs flags;
                auto add = [&](const std::string& f)
                {
                    if (!has_flag(e.spec, f, p.ci))
                        flags.push_back(f);
                };
                if (p.style == Style::STANDARD)
                {
                    add("-h");
                    add("--help");
                }
                else if (p.style == Style::SLASH)
                    add("/?");
                else
                {
                    add("-h");
                    if (flags.empty())
                        add("-help");
                }
                if (!flags.empty())
                {
                    auto o = opt(flags);
                    o.type = Type::HELP;
                    o.id = 0;
                    o.callback = false;
                    e.spec.opts.push_back(o);
                }
            }
            // effective constants
            for (auto& o : e.spec.opts)
                if (o.op == Op::ASSIGN && o.argument.empty() && o.constant.empty())
                    o.constant = "1";
            link_names(e);
            for (auto& s : c.cmds)
            {
                e.children.emplace_back();
                expand(e.children.back(), s, p, e.full_name);
            }
        }

        int pub(int id) { return id == -1000 ? 0 : id; }

        struct Failure
        {
        };
        struct Exit
        {
            int code;
        };
        struct Throw
        {
        };
        struct Undefined
        {
            std::string why;
        };

        struct Item
        {
            std::string s;
            bool cluster = false; // s: unread letters of a cluster
            int origin = -1;      // index on the command line of a whole token
        };

        struct Res // result of one command
        {
            const ECmd* cmd = nullptr;
            Code code = Code::NONE;
            std::vector<std::vector<Val>> groups;
            Strs unprocessed;
            int stop = -1;
            std::list<Res> subs;
        };

        struct Frame
        {
            const ECmd* cmd;
            Res* res;
            std::vector<unsigned long> got, alloc; // per declared argument
        };

        class Model
        {
        public:
            Model(const ParserSpec& p, const Strs& line) : p(p)
            {
                expand(root, p.root, p, "");
                for (auto& t : line)
                    pending.push_back({t, false, int(&t - line.data())});
            }

            Outcome run()
            {
                try
                {
                    root_res.cmd = &root;
                    enter(root, root_res);
                    while (!done)
                        step();
                }
                catch (Failure&)
                {
                    o.failed = true;
                }
                catch (Exit& e)
                {
                    o.end = Outcome::EXITED;
                    o.exit_code = e.code;
                }
                catch (Throw&)
                {
                    o.end = Outcome::THREW;
                }
                catch (Undefined& u)
                {
                    o.undefined = true;
                    o.why_undefined = u.why;
                }
                o.root = output(root_res);
                return o;
            }

        private:
            const ParserSpec& p;
            ECmd root;
            Res root_res;
            std::vector<Frame> stack;
            std::deque<Item> pending;
            bool args_only = false;   // no options are recognised
            bool done = false;
            std::map<const void*, int> uses;
            Outcome o;

            // ------------------------------------------------ observations
            CmdOut output(const Res& r) const
            {
                CmdOut c;
                c.name = r.cmd->spec.name;
                c.id = r.cmd->spec.id;
                c.code = r.code;
                c.stop = r.stop == -1 ? -1 : pub(r.stop);
                c.unprocessed = r.unprocessed;
                for (auto& [n, g] : r.cmd->name_group)
                    c.values.emplace_back(n, r.groups.empty() ? std::vector<Val>{} : r.groups[size_t(g)]);
                for (auto& [n, vs] : c.values)
                    for (auto& v : vs)
                        v.src = pub(v.src);
                for (auto& s : r.subs)
                    c.subs.push_back(output(s));
                return c;
            }

            std::string values_text(const Res& r) const
            {
                auto c = output(r);
                std::erase_if(c.values, [&](auto& v) { return !r.cmd->declared.count(v.first); });
                c.subs.clear();
                c.unprocessed.clear();
                return text(c, false);
            }

            void yield(char kind, int id, const std::string& value)
            {
                o.steps_taken++;
                auto snap = text(output(root_res), false);
                uint64_t h = hash64(snap, 77);
                for (auto& i : pending)
                    h = hash64(i.s, h + (i.cluster ? 3 : 1));
                o.states.push_back(h + (args_only ? 1 : 0));
                o.steps.push_back({kind, pub(id), value, std::move(snap)});
            }

            // ------------------------------------------------------ errors
            [[noreturn]] void error(const ECmd* c, Strs mentions)
            {
                o.errors.push_back({c->full_name, std::move(mentions)});
                fail_now();
            }

            [[noreturn]] void fail_now()
            {
                if (p.auto_exit)
                    throw Exit{p.error_code};
                leave_rest();
                for (auto& f : stack)
                    f.res->code = Code::FAILURE;
                throw Failure{};
            }

            void leave_rest()
            {
                for (auto& i : pending)
                {
                    stack.back().res->unprocessed.push_back(i.cluster ? "-" + i.s : i.s);
                    o.left.push_back(i.origin);
                }
                pending.clear();
            }

            // ----------------------------------------------------- matching
            const OptSpec* match_exactly(const ECmd& c, const std::string& flag) const
            {
                for (auto& x : c.spec.opts)
                    for (auto& f : x.flags)
                        if (p.ci ? lower(f) == lower(flag) : f == flag)
                            return &x;
                return nullptr;
            }

            const OptSpec* match_abbreviation(const ECmd& c, const std::string& flag) const
            {
                if (!p.abbrev)
                    return nullptr;
                const OptSpec* found = nullptr;
                int n = 0;
                for (auto& x : c.spec.opts)
                    for (auto& f : x.flags)
                    {
                        const auto head = f.substr(0, flag.size());
                        if (f.size() > flag.size() && (p.ci ? lower(head) == lower(flag) : head == flag))
                        {
                            ++n;
                            found = &x;
                        }
                    }
                return n == 1 ? found : nullptr;
            }

            const OptSpec* match(const ECmd& c, const std::string& flag) const
            {
                if (auto x = match_exactly(c, flag))
                    return x;
                if (auto x = match_abbreviation(c, flag))
                    return x;
                if (flag.size() > 2 && flag.back() == '=')
                {
                    const auto f = flag.substr(0, flag.size() - 1);
                    auto x = match_exactly(c, f);
                    if (!x)
                        x = match_abbreviation(c, f);
                    if (x && !x->argument.empty())
                        return x;
                }
                return nullptr;
            }

            const ECmd* find_child(const ECmd& c, const std::string& name) const
            {
                for (auto& x : c.children)
                    if (p.ci ? lower(x.spec.name) == lower(name) : x.spec.name == name)
                        return &x;
                return nullptr;
            }

            bool is_option(const std::string& s) const
            {
                return s.size() >= 2 && s[0] == (p.style == Style::SLASH ? '/' : '-');
            }

            struct Spelled
            {
                std::string flag;
                std::optional<std::string> rest; // attached text
                bool cluster = false;            // rest may be more letters
            };

            Spelled spell(const Item& i) const
            {
                Spelled r;
                if (i.cluster)
                {
                    r.flag = std::string("-") + i.s[0];
                    if (i.s[0] == '-')
                        throw Undefined{"dash inside a cluster"};
                    if (i.s.size() > 1)
                    {
                        r.rest = i.s.substr(1);
                        r.cluster = true;
                    }
                    return r;
                }
                const auto& s = i.s;
                if (s.size() == 2)
                {
                    r.flag = s;
                    return r;
                }
                if (p.style == Style::STANDARD && s[1] != '-')
                {
                    r.flag = s.substr(0, 2);
                    r.rest = s.substr(2);
                    r.cluster = true;
                    return r;
                }
                const auto eq = s.find('=');
                if (eq == std::string::npos)
                {
                    r.flag = s;
                    return r;
                }
                r.flag = s.substr(0, eq + 1);
                r.rest = s.substr(eq + 1);
                return r;
            }

            static bool takes_value(const OptSpec& x)
            {
                return (x.op == Op::ASSIGN || x.op == Op::APPEND) && x.constant.empty();
            }

            // ------------------------------------------ argument allocation
            // How many positionals will this command still get, given the
            // pending tokens?
            size_t upcoming(const Frame& f) const
            {
                unsigned long min = 0, have = 0;
                for (size_t i = 0; i < f.cmd->spec.args.size(); ++i)
                {
                    min += f.cmd->spec.args[i].min;
                    have += f.got[i];
                }
                const ECmd* multi = multi_parent();
                size_t n = 0;
                std::deque<Item> q = pending;
                bool only = args_only;
                while (!q.empty())
                {
                    Item i = q.front();
                    q.pop_front();
                    if (i.cluster || (!only && is_option(i.s)))
                    {
                        auto sp = spell(i);
                        auto x = match(*f.cmd, sp.flag);
                        const bool takes = x && takes_value(*x);
                        if (takes)
                        {
                            if (!sp.rest && !q.empty())
                                q.pop_front();
                        }
                        else if (sp.cluster)
                        {
                            q.push_front({*sp.rest, true});
                        }
                        if (!x)
                            continue;
                        if (x->type == Type::LAST_OPTION && !takes && sp.rest)
                            throw Undefined{"last-option inside a cluster"};
                        if (x->type == Type::LAST_OPTION)
                            only = true;
                        else if (x->type != Type::NORMAL)
                            break;
                        continue;
                    }
                    if (multi && have + n >= min && find_child(*multi, i.s))
                        break;
                    ++n;
                }
                return n;
            }

            const ECmd* multi_parent(size_t* index = nullptr) const
            {
                for (size_t i = stack.size() - 1; i-- > 0;)
                    if (stack[i].cmd->spec.multi)
                    {
                        if (index)
                            *index = i;
                        return stack[i].cmd;
                    }
                return nullptr;
            }

            void allocate(Frame& f)
            {
                const auto& args = f.cmd->spec.args;
                if (args.empty())
                    return;
                const auto n = upcoming(f);
                size_t first = 0; // arguments before the one in use are closed
                for (size_t i = 0; i < args.size(); ++i)
                    if (f.got[i])
                        first = i;
                unsigned long need = 0;
                for (size_t i = first; i < args.size(); ++i)
                    need += args[i].min > f.got[i] ? args[i].min - f.got[i] : 0;
                unsigned long extra = n > need ? n - need : 0;
                f.alloc.assign(args.size(), 0);
                for (size_t i = first; i < args.size(); ++i)
                {
                    const unsigned long least = args[i].min > f.got[i] ? args[i].min - f.got[i] : 0;
                    const unsigned long most = args[i].max - f.got[i];
                    const auto more = std::min(extra, most - least);
                    extra -= more;
                    f.alloc[i] = least + more;
                }
            }

            bool args_complete(const Frame& f) const
            {
                for (size_t i = 0; i < f.got.size(); ++i)
                    if (f.got[i] < f.cmd->spec.args[i].min)
                        return false;
                return true;
            }

            // -------------------------------------------------------- steps
            void enter(const ECmd& c, Res& r)
            {
                r.cmd = &c;
                r.groups.resize(size_t(c.groups));
                for (size_t i = 0; i < c.spec.opts.size(); ++i)
                    if (!c.spec.opts[i].initial.empty() && c.opt_group[i] >= 0)
                        r.groups[size_t(c.opt_group[i])].push_back({c.spec.opts[i].initial, c.spec.opts[i].id});
                stack.push_back({&c, &r, std::vector<unsigned long>(c.spec.args.size()), {}});
                args_only = false;
                allocate(stack.back());
            }

            // Reports what frames[from..] lack; false if nothing.
            void check_options(size_t from)
            {
                bool missing = false;
                for (size_t i = from; i < stack.size(); ++i)
                {
                    const auto& c = *stack[i].cmd;
                    for (size_t k = 0; k < c.spec.opts.size(); ++k)
                    {
                        const auto& x = c.spec.opts[k];
                        if (!x.optional && stack[i].res->groups[size_t(c.opt_group[k])].empty())
                        {
                            missing = true;
                            o.errors.push_back({c.full_name, x.flags});
                        }
                    }
                }
                if (missing)
                    fail_now();
            }

            void check_all()
            {
                bool missing = false;
                auto& f = stack.back();
                if (f.cmd->require && f.res->subs.empty())
                {
                    missing = true;
                    o.errors.push_back({f.cmd->full_name, {"command"}});
                }
                if (!args_complete(f))
                {
                    missing = true;
                    unsigned long min = 0, have = 0;
                    for (size_t i = 0; i < f.got.size(); ++i)
                    {
                        min += f.cmd->spec.args[i].min;
                        have += f.got[i];
                    }
                    o.errors.push_back({f.cmd->full_name,
                                        {"Too few arguments", std::to_string(min), "received " + std::to_string(have)}});
                }
                for (size_t i = 0; i < stack.size(); ++i)
                {
                    const auto& c = *stack[i].cmd;
                    for (size_t k = 0; k < c.spec.opts.size(); ++k)
                        if (!c.spec.opts[k].optional && stack[i].res->groups[size_t(c.opt_group[k])].empty())
                        {
                            missing = true;
                            o.errors.push_back({c.full_name, c.spec.opts[k].flags});
                        }
                }
                if (missing)
                    fail_now();
                for (auto& g : stack)
                    g.res->code = Code::SUCCESS;
            }

            void back_to(size_t index)
            {
                for (size_t i = index + 1; i < stack.size(); ++i)
                    stack[i].res->code = Code::SUCCESS;
                stack.resize(index + 1);
                args_only = true; // only a sub-command can follow
            }

            void enter_child(const ECmd& c)
            {
                auto& subs = stack.back().res->subs;
                subs.emplace_back();
                enter(c, subs.back());
                yield('C', c.spec.id, c.spec.name);
            }

            void step()
            {
                if (pending.empty())
                {
                    check_all();
                    done = true;
                    return;
                }
                const Item i = pending.front();
                pending.pop_front();
                auto& f = stack.back();
                if (i.cluster || (!args_only && is_option(i.s)))
                {
                    option(i);
                    return;
                }
                if (!f.cmd->children.empty())
                {
                    if (auto c = find_child(*f.cmd, i.s))
                    {
                        enter_child(*c);
                        return;
                    }
                    error(f.cmd, {"nknown command", i.s});
                }
                positional(i);
            }

            void positional(const Item& item)
            {
                const auto& s = item.s;
                size_t index = 0;
                if (auto m = multi_parent(&index); m && args_complete(stack.back()))
                {
                    if (auto c = find_child(*m, s))
                    {
                        check_options(index + 1);
                        back_to(index);
                        enter_child(*c);
                        return;
                    }
                }
                auto& f = stack.back();
                const auto& args = f.cmd->spec.args;
                for (size_t i = 0; i < args.size(); ++i)
                {
                    if (f.alloc.empty() || f.alloc[i] == 0)
                        continue;
                    --f.alloc[i];
                    ++f.got[i];
                    f.res->groups[size_t(f.cmd->arg_group[i])].push_back({s, args[i].id});
                    if (args[i].callback)
                        callback('a', args[i].id, s, args[i].acts, f, args[i].name, f.cmd->arg_group[i], args[i].name);
                    if (p.arg_cb)
                        callback('A', args[i].id, s, p.arg_acts, f, args[i].name, f.cmd->arg_group[i], args[i].name);
                    yield('A', args[i].id, s);
                    return;
                }
                if (p.ign_arg)
                {
                    f.res->unprocessed.push_back(s);
                    o.left.push_back(item.origin);
                    yield('U', 0, s);
                    return;
                }
                error(f.cmd, {"Too many arguments", s});
            }

            void option(const Item& item)
            {
                auto& f = stack.back();
                const auto sp = spell(item);
                const auto x = match(*f.cmd, sp.flag);
                if (!x)
                {
                    // an unknown letter in a cluster of several is an error
                    // whatever the settings (its value, if any, is unknown)
                    if (sp.cluster || item.cluster)
                    {
                        if (p.ign_opt)
                            throw Undefined{"unknown letter in a cluster"};
                        error(f.cmd, {"nknown option", item.cluster ? item.s.substr(0, 1) : item.s});
                    }
                    if (!p.ign_opt)
                        error(f.cmd, {"nknown option", item.s});
                    f.res->unprocessed.push_back(item.s);
                    o.left.push_back(item.origin);
                    yield('U', 0, item.s);
                    return;
                }
                const auto k = size_t(x - f.cmd->spec.opts.data());
                const int group = f.cmd->opt_group[k];
                std::string value;
                if (takes_value(*x))
                {
                    if (sp.rest)
                        value = *sp.rest;
                    else if (!pending.empty())
                    {
                        value = pending.front().s;
                        pending.pop_front();
                    }
                    else
                        error(f.cmd, {sp.flag.back() == '=' ? sp.flag.substr(0, sp.flag.size() - 1) : sp.flag, "value"});
                }
                else if (sp.cluster)
                {
                    if (x->type == Type::LAST_OPTION)
                        throw Undefined{"last-option inside a cluster"};
                    pending.push_front({*sp.rest, true});
                }
                else if (sp.rest && (x->type == Type::LAST_OPTION || (x->type == Type::LAST_ARGUMENT && multi_parent())))
                    throw Undefined{"last-option or last-argument with an ignored value"};
                switch (x->op)
                {
                case Op::ASSIGN:
                    f.res->groups[size_t(group)] = {{takes_value(*x) ? value : x->constant, x->id}};
                    break;
                case Op::APPEND:
                    f.res->groups[size_t(group)].push_back({takes_value(*x) ? value : x->constant, x->id});
                    break;
                case Op::CLEAR:
                    f.res->groups[size_t(group)].clear();
                    break;
                case Op::NONE:
                    break;
                }
                std::string flags;
                for (auto& g : x->flags)
                    flags += (flags.empty() ? "" : ", ") + g;
                if (x->callback)
                    callback('o', x->id, value, x->acts, f, flags, group, x->flags[0]);
                if (x->id == -1000)
                    o.version_shown = true;
                if (p.opt_cb)
                    callback('O', x->id, value, p.opt_acts, f, flags, group, x->flags[0]);
                switch (x->type)
                {
                case Type::NORMAL:
                    break;
                case Type::LAST_OPTION:
                    args_only = true;
                    break;
                case Type::HELP:
                    o.help_for = f.cmd->full_name;
                    [[fallthrough]];
                case Type::EXIT:
                    if (p.auto_exit)
                        throw Exit{p.normal_code};
                    [[fallthrough]];
                case Type::STOP:
                    leave_rest();
                    for (auto& g : stack)
                    {
                        g.res->code = Code::STOP;
                        g.res->stop = x->id;
                    }
                    done = true;
                    break;
                case Type::LAST_ARGUMENT:
                {
                    check_all();
                    size_t index = 0;
                    if (multi_parent(&index))
                    {
                        if (!pending.empty() && pending.front().cluster)
                            throw Undefined{"last-argument inside a cluster of a multi-command"};
                        back_to(index);
                    }
                    else
                    {
                        leave_rest();
                        done = true;
                    }
                    break;
                }
                }
                yield('O', x->id, value);
            }

            void callback(char kind, int id, const std::string& value, const std::vector<Act>& acts,
                          Frame& f, const std::string& label, int own_group, const std::string&)
            {
                o.events.push_back({kind, pub(id), value, pub(id) ? values_text(*f.res) : std::string()});
                Strs inserted;
                for (auto& a : acts)
                {
                    if (uses[&a]++ >= a.max_uses)
                        continue;
                    auto group = [&]
                    {
                        const auto it = f.cmd->name_group.find(a.name);
                        if (it == f.cmd->name_group.end())
                            throw Throw{};
                        return size_t(it->second);
                    };
                    auto& gs = f.res->groups;
                    switch (a.kind)
                    {
                    case Act::ASSIGN:
                        gs[group()] = {{a.vals[0], 0}};
                        break;
                    case Act::APPEND:
                        gs[group()].push_back({a.vals[0], 0});
                        break;
                    case Act::CLEAR:
                        gs[group()].clear();
                        break;
                    case Act::VIEW_ASSIGN:
                        if (own_group >= 0)
                            gs[size_t(own_group)] = {{a.vals[0], id}};
                        break;
                    case Act::VIEW_APPEND:
                        if (own_group >= 0)
                            gs[size_t(own_group)].push_back({a.vals[0], id});
                        break;
                    case Act::VIEW_CLEAR:
                        if (own_group >= 0)
                            gs[size_t(own_group)].clear();
                        break;
                    case Act::INSERT:
                        inserted.insert(inserted.end(), a.vals.begin(), a.vals.end());
                        break;
                    case Act::ERROR:
                    case Act::ERROR_ARG:
                        o.errors.push_back({f.cmd->full_name, a.kind == Act::ERROR ? Strs{a.vals[0]} : Strs{label + ": " + a.vals[0]}});
                        if (p.auto_exit)
                            throw Exit{p.error_code};
                        throw Throw{};
                    }
                }
                if (!acts.empty())
                    o.events.push_back({'.', pub(id), value, pub(id) ? values_text(*f.res) : std::string()});
                if (!inserted.empty())
                {
                    // what is left of a cluster follows as an ordinary token
                    if (!pending.empty() && pending.front().cluster)
                    {
                        if (pending.front().s[0] == '-')
                            throw Undefined{"dash inside a cluster"};
                        pending.front() = {"-" + pending.front().s, false};
                    }
                    for (size_t i = inserted.size(); i-- > 0;)
                        pending.push_front({inserted[i], false});
                    allocate(f);
                }
            }
        };
    }

    Outcome model_run(const ParserSpec& p, const Strs& line)
    {
        return Model(p, line).run();
    }
}
