// Which definitions are valid.
#pragma once
#include "common.hpp"

namespace mc
{
    inline bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

    inline bool valid_flag(const std::string& f, Style s, bool has_argument)
    {
        for (char c : f)
            if (blank(c))
                return false;
        if (f.size() < 2 || f[0] != (s == Style::SLASH ? '/' : '-'))
            return false;
        if (f.size() == 2)
            return true; // one character, any character
        if (s == Style::STANDARD && f[1] != '-')
            return false;
        for (size_t i = 0; i < f.size(); ++i)
            if (f[i] == '=' && (i + 1 != f.size() || !has_argument))
                return false;
        return true;
    }

    inline bool valid_option(const OptSpec& o, Style s)
    {
        if (o.flags.empty())
            return false;
        for (auto& f : o.flags)
            if (!valid_flag(f, s, !o.argument.empty()))
                return false;
        if (!o.argument.empty() && !o.constant.empty())
            return false;
        switch (o.op)
        {
        case Op::NONE: return o.constant.empty() && o.alias.empty();
        case Op::ASSIGN: return true;
        case Op::APPEND: return !o.argument.empty() || !o.constant.empty();
        case Op::CLEAR: return o.optional;
        }
        return false;
    }

    inline std::string folded(std::string s, bool ci)
    {
        if (ci)
            for (auto& c : s)
                if (c >= 'A' && c <= 'Z')
                    c = char(c - 'A' + 'a');
        return s;
    }

    inline bool valid_command(const CmdSpec& c, const ParserSpec& p)
    {
        std::set<std::string> seen;
        for (auto& o : c.opts)
        {
            if (!valid_option(o, p.style))
                return false;
            for (auto& f : o.flags)
                if (!seen.insert(folded(f, p.ci)).second)
                    return false;
        }
        if (c.require.value_or(false) && c.cmds.empty())
            return false;
        for (auto& s : c.cmds)
            if (!valid_command(s, p))
                return false;
        return true;
    }
}
