// What views say, in words, and what they should say.
#pragma once
#include "valid.hpp"

namespace mc
{
    // ---------------------------------------------------------- in words
    inline std::string common(const argos::IArgumentView& v)
    {
        return "id=" + std::to_string(v.id()) + " section=" + show(v.section()) + " alias=" + show(v.alias()) + " help=" + show(v.help()) + " visibility=" + std::to_string(int(v.visibility()));
    }

    inline std::string words(const argos::ArgumentView& v)
    {
        return "argument " + show(v.name()) + " " + std::to_string(v.count().first) + ".." + std::to_string(v.count().second) + (v.optional() ? " optional " : " mandatory ") + common(v);
    }

    inline bool automatic(const argos::OptionView& v)
    {
        return v.id() == 0;
    }

    inline std::string words(const argos::OptionView& v)
    {
        if (automatic(v))
            return "automatic option " + show(v.flags()) + " type=" + std::to_string(int(v.type()));
        return "option " + show(v.flags()) + " operation=" + std::to_string(int(v.operation())) + " type=" + std::to_string(int(v.type())) + " argument=" + show(v.argument())
               + " constant=" + show(v.constant()) + " initial=" + show(v.initial_value()) + (v.optional() ? " optional " : " mandatory ") + common(v);
    }

    inline std::string words(const argos::CommandView& v)
    {
        std::string r = "command " + show(v.name()) + (v.require_subcommand() ? " require" : "") + " " + common(v) + " value=" + std::to_string(int(v.value_id())) + " {";
        for (auto& x : v.arguments())
            r += words(x) + "; ";
        for (auto& x : v.options())
            r += words(x) + "; ";
        for (auto& x : v.subcommands())
            r += words(x) + "; ";
        return r + "}";
    }

    inline std::string words(const argos::IArgumentView* v)
    {
        if (!v)
            return "none";
        if (auto a = dynamic_cast<const argos::ArgumentView*>(v))
            return words(*a);
        if (auto o = dynamic_cast<const argos::OptionView*>(v))
            return words(*o);
        if (auto c = dynamic_cast<const argos::CommandView*>(v))
            return words(*c);
        return "unknown view";
    }

    // --------------------------------------------------------- the oracle
    inline std::string common(int id, const std::string& section, const std::string& alias, const std::string& help, Vis v)
    {
        return "id=" + std::to_string(id) + " section=" + show(section) + " alias=" + show(alias) + " help=" + show(help) + " visibility=" + std::to_string(int(v));
    }

    inline std::string words(const ArgSpec& a)
    {
        return "argument " + show(a.name) + " " + std::to_string(a.min) + ".." + std::to_string(a.max) + (a.min == 0 ? " optional " : " mandatory ") + common(a.id, a.section, a.alias, a.help, a.visibility);
    }

    inline std::string words(const OptSpec& o)
    {
        // an option that sets its value and is given nothing to set it to sets it to 1
        auto constant = o.constant;
        if (constant.empty() && o.argument.empty() && o.op == Op::ASSIGN)
            constant = "1";
        return "option " + show(o.flags) + " operation=" + std::to_string(int(o.op)) + " type=" + std::to_string(int(o.type)) + " argument=" + show(o.argument) + " constant=" + show(constant)
               + " initial=" + show(o.initial) + (o.optional ? " optional " : " mandatory ") + common(o.id, o.section, o.alias, o.help, o.visibility);
    }

    inline std::vector<std::pair<Strs, Type>> automatic_options(const ParserSpec& p, const CmdSpec& c, bool program)
    {
        auto taken = [&](const std::string& f)
        {
            for (auto& o : c.opts)
                for (auto& g : o.flags)
                    if (folded(g, p.ci) == folded(f, p.ci))
                        return true;
            return false;
        };
        std::vector<std::pair<Strs, Type>> r;
        const auto version = p.style == Style::STANDARD ? "--version" : p.style == Style::SLASH ? "/VERSION" : "-version";
        if (program && !p.version.empty() && !taken(version))
            r.push_back({{version}, Type::STOP});
        bool own_help = false;
        for (auto& o : c.opts)
            own_help = own_help || o.type == Type::HELP;
        if (p.gen_help && !own_help)
        {
            Strs f;
            if (p.style == Style::SLASH)
            {
                if (!taken("/?"))
                    f.push_back("/?");
            }
            else
            {
                if (!taken("-h"))
                    f.push_back("-h");
                if (p.style == Style::STANDARD ? !taken("--help") : f.empty() && !taken("-help"))
                    f.push_back(p.style == Style::STANDARD ? "--help" : "-help");
            }
            if (!f.empty())
                r.push_back({f, Type::HELP});
        }
        return r;
    }

    inline std::string words(const ParserSpec& p, const CmdSpec& c, bool program)
    {
        auto t = c.texts.find(TextId::HELP);
        std::string r = "command " + show(c.name) + (c.require.value_or(!c.cmds.empty()) ? " require" : "") + " "
                        + common(c.id, c.section, c.name, t == c.texts.end() ? "" : t->second, c.visibility) + " value=0 {";
        for (auto& x : c.args)
            r += words(x) + "; ";
        for (auto& x : c.opts)
            r += words(x) + "; ";
        for (auto& [f, type] : automatic_options(p, c, program))
            r += "automatic option " + show(f) + " type=" + std::to_string(int(type)) + "; ";
        for (auto& x : c.cmds)
            r += words(p, x, false) + "; ";
        return r + "}";
    }

    // every definition by its id
    inline void collect(const ParserSpec& p, const CmdSpec& c, bool program, std::map<int, std::string>& m)
    {
        m[c.id] = words(p, c, program);
        for (auto& a : c.args)
            m[a.id] = words(a);
        for (auto& o : c.opts)
            m[o.id] = words(o);
        for (auto& s : c.cmds)
            collect(p, s, false, m);
    }
}
