// The rules text is laid out by, as a specification that output is checked
// against line by line. Where a word may be broken at several places, the
// output decides which one of them is followed.
#pragma once
#include "common.hpp"
#include <cstring>

namespace mc
{
    inline size_t points(std::string_view s)
    {
        return size_t(std::count_if(s.begin(), s.end(), [](char c) { return (c & 0xC0) != 0x80; }));
    }

    struct Rule
    {
        Strs pieces;
        std::string spelled() const
        {
            std::string s;
            for (auto& p : pieces)
                s += (s.empty() ? "" : " ") + p;
            return s;
        }
    };

    class Layout
    {
    public:
        Layout(const std::string& output, unsigned width, const std::vector<Rule>& rules = {}) : width(width), rules(rules)
        {
            std::string l;
            for (char x : output)
                if (x == '\n')
                {
                    actual.push_back(l);
                    l.clear();
                }
                else
                    l += x;
            if (!l.empty())
                problem = "the output doesn't end with a line break";
        }

        // Follows the layout described by `drive` along `output`.
        template <class F>
        static Layout follow(const std::string& output, unsigned width, const std::vector<Rule>& rules, F drive)
        {
            int most = 0;
            for (unsigned mask = 0;; ++mask)
            {
                Layout l(output, width, rules);
                l.mask = mask;
                drive(l);
                l.finish();
                if (l.problem.empty() || l.open || mask + 1 >= 1u << (most = std::min(std::max(most, l.ambiguous), 10)))
                    return l;
            }
        }

        std::string problem; // of the output
        bool open = false;   // nothing is specified
        // statistics
        int wraps = 0, breaks = 0, forced = 0, ruled = 0;

        void push(unsigned n)
        {
            indents.push_back(n < width ? n : indents.back());
        }

        void push_here()
        {
            const auto here = unsigned(position());
            if (here < width)
                gap = 0;
            push(here);
        }

        void pop() { indents.pop_back(); }

        size_t column() const { return position(); }
        bool line_empty() const { return line.empty(); }

        void newline()
        {
            emit();
            gap = 0;
        }

        void words(std::string_view text)
        {
            const auto depth = indents.size();
            size_t i = 0;
            while (i < text.size() && !stopped())
            {
                // One line of the text
                bool fresh = line.empty();
                bool marker = false;
                bool first = true;
                while (i < text.size() && text[i] != '\n' && text[i] != '\r')
                {
                    size_t e = i;
                    if (text[i] == ' ' || text[i] == '\t')
                    {
                        while (e < text.size() && (text[e] == ' ' || text[e] == '\t'))
                            ++e;
                        const auto run = text.substr(i, e - i);
                        const bool mixed = run.find(' ') != run.npos && run.find('\t') != run.npos;
                        if (first && fresh)
                        {
                            auto at = size_t(indents.back()) + gap;
                            for (char x : run)
                                at += x == ' ' ? 1 : 4 - at % 4;
                            gap = 0;
                            push(unsigned(at));
                            open = open || (at >= width && run.size() > 1 && run.find('\t') != run.npos);
                        }
                        else
                        {
                            open = open || mixed || (marker && run[0] == '\t' && run.size() > 1); // how wide it becomes
                            if (run[0] == ' ')
                                gap = run.size();
                            else
                                for (size_t n = 0; n < run.size(); ++n)
                                    gap += 4 - position() % 4;
                            // no room for the item after an indented marker
                            open = open || (marker && indents.size() > depth && position() >= width);
                            if (marker)
                                push_here();
                            marker = false;
                        }
                    }
                    else
                    {
                        while (e < text.size() && !strchr(" \t\r\n", text[e]))
                            ++e;
                        const auto w = text.substr(i, e - i);
                        marker = line.empty() && fresh && is_marker(w) && first_word(text, i);
                        word(w);
                    }
                    first = false;
                    i = e;
                }
                while (indents.size() > depth)
                    pop();
                if (i < text.size())
                {
                    i += text.substr(i, 2) == "\r\n" ? 2 : 1;
                    newline();
                }
            }
            while (indents.size() > depth)
                pop();
        }

        // Text whose spaces are not places to break a line
        void atom(std::string_view text) { word(text); }

        // A text of its own, closed by a line break.
        void paragraph(std::string_view text)
        {
            words(text);
            if (!line.empty())
                newline();
        }

        // Nothing more is expected.
        void finish()
        {
            if (!stopped() && !line.empty())
                problem = "\"" + line + "\" is missing its line break";
            if (!stopped() && at != actual.size())
                problem = "unexpected line \"" + actual[at] + "\"";
        }

        bool stopped() const { return open || !problem.empty(); }

    private:
        static bool first_word(std::string_view text, size_t i)
        {
            while (i-- > 0)
            {
                if (text[i] == '\n' || text[i] == '\r')
                    return true;
                if (text[i] != ' ' && text[i] != '\t')
                    return false;
            }
            return true;
        }

        static bool is_marker(std::string_view w)
        {
            if (w == "-" || w == "*")
                return true;
            return w.size() > 1 && w.back() == '.' && std::all_of(w.begin(), w.end() - 1, [](char c) { return c >= '0' && c <= '9'; });
        }

        size_t position() const { return std::max(points(line), size_t(indents.back())) + gap; }

        size_t room() const { return width - std::min(size_t(width), position()); }

        void put(std::string_view s)
        {
            line.append(position() - points(line), ' ');
            line += s;
            gap = 0;
        }

        void emit()
        {
            if (stopped())
                return;
            if (at == actual.size())
                problem = "expected another line \"" + line + "\"";
            else if (actual[at] != line)
                problem = "expected the line \"" + line + "\", found \"" + actual[at] + "\"";
            ++at;
            line.clear();
        }

        void word(std::string_view w)
        {
            const auto whole = w;
            while (!stopped())
            {
                if (points(w) <= room())
                {
                    put(w);
                    return;
                }
                if (apply_rule(whole, w))
                    continue;
                if (!line.empty())
                {
                    ++wraps;
                    emit();
                    gap = 0;
                }
                else if (gap)
                    gap = 0;
                else if (room() <= 2)
                {
                    ++forced;
                    put(w);
                    return;
                }
                else
                    break_anywhere(w);
            }
        }

        bool apply_rule(std::string_view whole, std::string_view& w)
        {
            const auto last = whole.find_last_not_of(".,;:!?()[]{}<>\"'`");
            std::string key(whole.substr(0, last + 1));
            auto low = [](std::string s)
            {
                for (auto& x : s)
                    x = char(x >= 'A' && x <= 'Z' ? x + 32 : x);
                return s;
            };
            for (auto& r : rules)
            {
                std::string joined;
                for (auto& p : r.pieces)
                    joined += p;
                if (low(joined) != low(key))
                    continue;
                const auto start = whole.size() - w.size();
                size_t end = 0, best = 0;
                bool hyphen = false;
                for (size_t i = 0; i < r.pieces.size(); ++i)
                {
                    end += r.pieces[i].size();
                    if (end <= start)
                        continue;
                    const bool h = i + 1 != r.pieces.size() && r.pieces[i].back() != '-';
                    if (points(whole.substr(start, end - start)) + h > room())
                        continue;
                    best = end;
                    hyphen = h;
                }
                if (best == 0)
                    return false;
                if (best == start + 1)
                {
                    open = true; // a piece of one character
                    return true;
                }
                ++ruled;
                put(whole.substr(start, best - start));
                if (hyphen)
                    put("-");
                w = whole.substr(best);
                emit();
                gap = 0;
                return true;
            }
            return false;
        }

        void break_anywhere(std::string_view& w)
        {
            if (at == actual.size())
            {
                problem = "the rest of \"" + std::string(w) + "\" is missing";
                return;
            }
            const std::string indent(position(), ' ');
            auto alnum = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
            std::vector<size_t> candidates;
            for (size_t k = w.size() - 1; k > 0; --k)
            {
                if ((w[k] & 0xC0) == 0x80)
                    continue;
                const auto piece = w.substr(0, k);
                const bool boundary = alnum(w[k - 1]) != alnum(w[k]) || (w[k - 1] & 0x80) || (w[k] & 0x80);
                for (int hyphen = boundary ? 0 : 1; hyphen < 2; ++hyphen)
                    if (points(piece) + size_t(hyphen) <= room() && actual[at] == indent + std::string(piece) + (hyphen ? "-" : ""))
                        candidates.push_back(k);
            }
            if (!candidates.empty())
            {
                // a hyphen at the end is one of the word or an added one
                size_t i = 0;
                if (candidates.size() > 1 && at + 1 < actual.size())
                {
                    const auto& next = actual[at + 1];
                    const auto text = next.find_first_not_of(' ');
                    if (text != next.npos)
                        std::erase_if(candidates, [&](size_t k) { return w[k] != ' ' && w[k] != next[text]; });
                    if (candidates.empty())
                    {
                        problem = "\"" + next + "\" is not how \"" + std::string(w) + "\" goes on";
                        return;
                    }
                }
                if (candidates.size() > 1)
                    i = (mask >> ambiguous++) & 1;
                ++breaks;
                ++at;
                w = w.substr(candidates[i]);
                return;
            }
            problem = "\"" + actual[at] + "\" is not a proper way to begin \"" + std::string(w) + "\" at column " + std::to_string(position());
        }

        unsigned mask = 0;
        int ambiguous = 0;
        unsigned width;
        std::vector<Rule> rules;
        Strs actual;
        size_t at = 0;
        std::string line;
        size_t gap = 0;
        std::vector<unsigned> indents{0};
    };

    // A program with nothing to show but texts.
    inline std::string texts_output(const std::map<TextId, std::string>& texts, unsigned width, const std::vector<Rule>& rules = {})
    {
        std::ostringstream s;
        argos::ArgumentParser p("prog");
        p.auto_exit(false).generate_help_option(false).stream(&s).line_width(width).text(TextId::USAGE, "");
        for (auto& [i, t] : texts)
            p.text(i, t);
        for (auto& r : rules)
            p.add_word_splitting_rule(r.spelled());
        p.write_help_text();
        return s.str();
    }
}
