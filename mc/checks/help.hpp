// What a help text must consist of, derived from the description of the
// parser. For lines wide enough never to be broken.
#pragma once
#include "common.hpp"

namespace mc
{
    // Lines without blank ones, inner white space reduced to one space;
    // indented lines start with one space.
    inline Strs canonical_lines(const std::string& text)
    {
        Strs r;
        std::string line;
        std::istringstream in(text);
        while (std::getline(in, line))
        {
            std::string s;
            bool gap = false;
            for (char x : line)
            {
                if (x == ' ')
                {
                    gap = true;
                    continue;
                }
                if (gap)
                    s += ' ';
                gap = false;
                s += x;
            }
            if (s.find_first_not_of(' ') != s.npos)
                r.push_back(s);
        }
        // brackets around no visible sub-command at all
        for (auto& l : r)
            if (l.size() > 3 && l.compare(l.size() - 3, 3, " []") == 0)
                l.resize(l.size() - 3);
        return r;
    }

    struct HelpOracle
    {
        const ParserSpec& p;
        Strs lines;
        std::string current_section; // in force when automatic options are added

        static bool stops(Type t) { return t == Type::HELP || t == Type::STOP || t == Type::EXIT; }
        static bool shows(Vis v, Vis part) { return (unsigned(v) & unsigned(part)) != 0; }

        static std::string bracketed(const std::string& s) { return s[0] == '<' ? s : "<" + s + ">"; }

        static std::string spelled(const std::string& flag, const OptSpec& o)
        {
            if (o.argument.empty())
                return flag;
            return flag + (flag.back() == '=' ? "" : " ") + bracketed(o.argument);
        }

        static std::string counted(const ArgSpec& a)
        {
            if (a.name[0] == '<' || a.name[0] == '[')
                return a.name;
            std::string s;
            for (unsigned i = 0; i < a.min; ++i)
                s += (i ? " <" : "<") + a.name + ">";
            if (a.max > a.min)
                s += (s.empty() ? "[<" : " [<") + a.name + (a.max - a.min == 1 ? ">]" : ">]...");
            return s;
        }

        // The command with the options that are added to it automatically.
        CmdSpec completed(CmdSpec c, bool root) const
        {
            auto has = [&](const std::string& f)
            {
                for (auto& o : c.opts)
                    for (auto& x : o.flags)
                        if (x.size() == f.size() && std::equal(x.begin(), x.end(), f.begin(), [&](char a, char b) { return p.ci ? tolower(a) == tolower(b) : a == b; }))
                            return true;
                return false;
            };
            auto add = [&](Strs candidates, Type t, const std::string& help, bool all)
            {
                OptSpec o;
                for (auto& f : candidates)
                    if (!has(f) && (all || o.flags.empty()))
                        o.flags.push_back(f);
                o.type = t;
                o.help = help;
                o.section = current_section;
                if (!o.flags.empty())
                    c.opts.push_back(o);
            };
            if (root && !p.version.empty())
                add({p.style == Style::STANDARD ? "--version" : p.style == Style::SLASH ? "/VERSION" : "-version"}, Type::STOP, "Display the program version.", true);
            bool help = !p.gen_help;
            for (auto& o : c.opts)
                help = help || o.type == Type::HELP;
            if (!help)
                add(p.style == Style::STANDARD ? Strs{"-h", "--help"} : p.style == Style::SLASH ? Strs{"/?"} : Strs{"-h", "-help"}, Type::HELP, "Display this help text.", p.style == Style::STANDARD);
            return c;
        }

        void add(const std::string& text, const std::string& indent = "")
        {
            for (auto& l : canonical_lines(text))
                lines.push_back(indent + l);
        }

        // Index of each command on the way down.
        Strs render(const std::vector<size_t>& path)
        {
            const CmdSpec* at = &p.root;
            std::string full = at->name;
            for (auto i : path)
            {
                at = &at->cmds.at(i);
                full += " " + at->name;
            }
            const auto c = completed(*at, path.empty());
            auto text = [&](TextId id) -> std::optional<std::string>
            {
                const auto it = c.texts.find(id);
                return it == c.texts.end() ? std::nullopt : std::optional(it->second);
            };
            lines.clear();
            add(text(TextId::INITIAL_TEXT).value_or(""));
            const auto custom_usage = text(TextId::USAGE);
            if (!custom_usage || !custom_usage->empty())
            {
                add(text(TextId::USAGE_TITLE).value_or("USAGE"));
                if (custom_usage)
                    add(*custom_usage);
                else
                    usage(c, full);
            }
            auto about = text(TextId::ABOUT);
            if (!about || about->empty())
                about = text(TextId::HELP);
            add(about.value_or(""));
            lists(c);
            add(text(TextId::FINAL_TEXT).value_or(""));
            return lines;
        }

        void usage(const CmdSpec& c, const std::string& full)
        {
            for (auto& o : c.opts)
            {
                if (!shows(o.visibility, Vis::USAGE) || !stops(o.type))
                    continue;
                auto flag = o.flags[0];
                for (auto& f : o.flags)
                    if (f.size() > 2)
                    {
                        flag = f;
                        break;
                    }
                lines.push_back(" " + full + " " + spelled(flag, o));
            }
            std::string s = " " + full;
            for (auto& o : c.opts)
                if (shows(o.visibility, Vis::USAGE) && !stops(o.type))
                    s += o.optional ? " [" + spelled(o.flags[0], o) + "]" : " " + spelled(o.flags[0], o);
            for (auto& a : c.args)
                if (shows(a.visibility, Vis::USAGE))
                    s += " " + counted(a);
            std::string subs;
            for (auto& x : c.cmds)
                if (shows(x.visibility, Vis::USAGE))
                    subs += (subs.empty() ? "" : "|") + x.name;
            if (!subs.empty())
                s += c.require.value_or(true) ? " " + subs : " [" + subs + "]";
            lines.push_back(s);
        }

        void lists(const CmdSpec& c)
        {
            struct Item
            {
                std::string name, help;
            };
            std::vector<std::pair<std::string, std::vector<Item>>> sections;
            auto item = [&](const std::string& section, TextId title, const char* fallback, Item i)
            {
                std::string s = section;
                if (s.empty())
                {
                    const auto it = c.texts.find(title);
                    s = it == c.texts.end() ? fallback : it->second;
                }
                for (auto& x : sections)
                    if (x.first == s)
                    {
                        x.second.push_back(std::move(i));
                        return;
                    }
                sections.push_back({s, {std::move(i)}});
            };
            for (auto& a : c.args)
                if (shows(a.visibility, Vis::TEXT))
                    item(a.section, TextId::ARGUMENTS_TITLE, "ARGUMENTS", {counted(a), a.help});
            for (auto& x : c.cmds)
                if (shows(x.visibility, Vis::TEXT))
                {
                    const auto it = x.texts.find(TextId::HELP);
                    item(x.section, TextId::SUBCOMMANDS_TITLE, "COMMANDS", {x.name, it == x.texts.end() ? "" : it->second});
                }
            for (auto& o : c.opts)
                if (shows(o.visibility, Vis::TEXT))
                {
                    std::string s;
                    for (auto& f : o.flags)
                        s += (s.empty() ? "" : ", ") + spelled(f, o);
                    item(o.section, TextId::OPTIONS_TITLE, "OPTIONS", {s, o.help});
                }
            size_t longest = 0;
            for (auto& [_, items] : sections)
                for (auto& i : items)
                    longest = std::max(longest, i.name.size());
            for (auto& [title, items] : sections)
            {
                add(title);
                for (auto& i : items)
                    if (i.help.empty())
                        lines.push_back(" " + i.name);
                    else if (longest + 3 <= 32)
                    {
                        Strs h = canonical_lines(i.help);
                        for (size_t n = 0; n < h.size(); ++n)
                            lines.push_back(" " + (n ? "" : i.name + " ") + h[n]);
                        if (h.empty())
                            lines.push_back(" " + i.name);
                    }
                    else
                    {
                        lines.push_back(" " + i.name);
                        add(i.help, " ");
                    }
            }
        }
    };

    inline std::string joined(const Strs& v)
    {
        std::string s;
        for (auto& x : v)
            s += x + "\n";
        return s;
    }

    enum class HelpRoute { OPTION, FUNCTION, CONST_OPTION, ITERATOR };

    // The help of the command at `path` as the real code writes it. A parser
    // without a help option gives it through FUNCTION only.
    inline std::string real_help(const ParserSpec& p, const std::vector<size_t>& path, HelpRoute route, const std::string& flag)
    {
        Strs names;
        const CmdSpec* at = &p.root;
        for (auto i : path)
        {
            at = &at->cmds.at(i);
            names.push_back(at->name);
        }
        auto parser = make_parser(p);
        std::ostringstream custom;
        if (p.custom_stream)
            parser->stream(&custom);
        Capture cap;
        if (route == HelpRoute::FUNCTION)
        {
            if (names.empty())
                parser->write_help_text();
            else
                parser->write_subcommand_help_text(names);
        }
        else
        {
            names.push_back(flag);
            std::vector<std::string_view> line(names.begin(), names.end());
            try
            {
                if (route == HelpRoute::OPTION)
                    (void)parser->parse(line);
                else if (route == HelpRoute::CONST_OPTION)
                    (void)std::as_const(*parser).parse(line);
                else
                {
                    auto it = parser->make_iterator(line);
                    std::unique_ptr<argos::IArgumentView> view;
                    std::string_view value;
                    while (it.next(view, value))
                    {
                    }
                }
            }
            catch (ExitCalled&)
            {
            }
        }
        return p.custom_stream ? custom.str() : cap.out();
    }

    inline void check_help(Chooser& c, const ParserSpec& p, const std::vector<size_t>& path, HelpRoute route, const std::string& flag, const std::string& sig)
    {
        const auto expected = joined(HelpOracle{p, {}, {}}.render(path));
        const auto output = real_help(p, path, route, flag);
        c.step();
        c.trace();
        c.state(hash64(describe(p), path.size() * 10 + size_t(route)));
        if (expected != joined(canonical_lines(output)))
            c.fail(sig, describe(p) + "help by route " + std::to_string(int(route)) + " at depth " + std::to_string(path.size())
                   + "\nexpected (without layout):\n" + expected + "observed:\n" + output);
    }
}
