// Splitting values.
#include "common.hpp"
using namespace mc;

namespace
{
    // The parts, cut one character at a time; 0: no maximum.
    Strs cut(const std::string& s, char sep, size_t max)
    {
        Strs r{""};
        for (char x : s)
            if (x == sep && (max == 0 || r.size() < max))
                r.emplace_back();
            else
                r.back() += x;
        return r;
    }

    std::string join(const Strs& v, char sep)
    {
        std::string s;
        for (size_t i = 0; i < v.size(); ++i)
            s += (i ? std::string(1, sep) : std::string()) + v[i];
        return s;
    }

    struct Case
    {
        ParserSpec p;
        std::unique_ptr<argos::ArgumentParser> parser;
        std::ostringstream stream;
        explicit Case(bool exits)
        {
            auto b = append({"-b"}), l = append({"--link"});
            b.id = 1;
            l.id = 2;
            l.alias = "-b";
            auto a = arg("A", 0, MANY);
            a.id = 3;
            p = mc::parser(mc::root({a}, {b, l}));
            p.auto_exit = exits;
            p.root.texts[TextId::ERROR_USAGE] = "MARK";
            number(p);
            parser = make_parser(p);
            parser->stream(&stream);
        }
        argos::ParsedArguments parse(const Strs& line)
        {
            std::vector<std::string_view> v(line.begin(), line.end());
            return std::as_const(*parser).parse(v);
        }
    };

    Case& the_case(bool exits)
    {
        static Case a(false), b(true);
        return exits ? b : a;
    }

    struct Part
    {
        std::string text;
        int src;
        bool operator==(const Part&) const = default;
    };

    std::string show(const std::vector<Part>& v)
    {
        std::string s = "[";
        for (auto& p : v)
            s += mc::show(p.text) + "<-" + std::to_string(p.src) + " ";
        return s + "]";
    }

    template <typename F>
    std::string run(std::ostringstream& stream, F&& f)
    {
        stream.str({});
        std::string got;
        try
        {
            const argos::ArgumentValues vs = f();
            std::vector<Part> parts;
            for (auto& v : vs.values())
                parts.push_back({v.as_string(), v.argument() ? v.argument()->id() : 0});
            got = show(parts);
            Strs raw;
            for (auto s : vs.raw_values())
                raw.emplace_back(s);
            Strs texts;
            for (auto& p : parts)
                texts.push_back(p.text);
            if (raw != texts || vs.size() != parts.size())
                got += " but raw values " + mc::show(raw);
        }
        catch (argos::ArgosException&)
        {
            got = "exception";
        }
        catch (ExitCalled& e)
        {
            got = "exit " + std::to_string(e.code);
        }
        const auto error = got == "exception" || got.rfind("exit", 0) == 0;
        const auto& out = stream.str();
        if (error != !out.empty() || (error && (out.rfind("prog: ", 0) != 0 || out.size() < 6 || out.substr(out.size() - 6) != "\nMARK\n")))
            got += " with output " + out;
        return got;
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P26";
    const bool q = quick(tier);
    auto judge = [](Chooser& c, const Strs& texts, int how, char sep, size_t min, size_t max, bool list, bool exactly, bool exits)
    {
        auto& x = the_case(exits);
        Strs line;
        std::vector<int> src;
        for (size_t i = 0; i < texts.size(); ++i)
        {
            // 0: argument, 1: option, 2: linked option, 3: alternating
            const int h = how == 3 ? 1 + int(i % 2) : how;
            if (h)
                line.push_back(h == 1 ? "-b" : "--link");
            line.push_back(texts[i]);
            src.push_back(h == 0 ? 3 : h);
        }
        const auto r = x.parse(line);
        const std::string name = how ? "-b" : "A";
        std::vector<Part> want;
        bool error = false;
        for (size_t i = 0; i < texts.size() && !error; ++i)
        {
            const auto parts = cut(texts[i], sep, exactly ? min : max);
            if (parts.size() < min)
                error = true;
            // the oracle itself has the properties promised
            const auto m = exactly ? min : max;
            bool ok = join(parts, sep) == texts[i] && (m == 0 || parts.size() <= m);
            for (size_t n = 0; n < parts.size(); ++n)
                ok = ok && (parts[n].find(sep) == std::string::npos || (n + 1 == parts.size() && parts.size() == m));
            if (!ok)
                throw std::logic_error("bad oracle");
            for (auto& t : parts)
                want.push_back({t, src[i]});
        }
        const auto got = run(x.stream, [&]
        {
            if (list)
                return exactly ? r.values(name).split_n(sep, min) : max ? r.values(name).split(sep, min, max) : min ? r.values(name).split(sep, min) : r.values(name).split(sep);
            return exactly ? r.value(name).split_n(sep, min) : max ? r.value(name).split(sep, min, max) : min ? r.value(name).split(sep, min) : r.value(name).split(sep);
        });
        c.step();
        c.trace();
        c.state(hash64(mc::show(texts), uint64_t(how) * 1000 + min * 100 + max * 10 + list));
        const auto expected = error ? (exits ? "exit 64" : "exception") : show(want);
        c.outcome(error ? "error" : std::to_string(want.size()) + " parts");
        expect_same(c, error ? "split:minimum" : "split:parts",
                    std::string(exactly ? "split_n" : "split") + (list ? " of the values " : " of ") + mc::show(texts) + " on " + mc::show(std::string(1, sep)) + ", minimum " + std::to_string(min) + ", maximum " + std::to_string(exactly ? min : max),
                    expected, got, "");
    };
    k.families.push_back({"texts", std::string("every text of up to ") + (q ? "6" : "8") + " characters of a , ; x 2 separators x every minimum and maximum from 0 to 5, or exactly that many x single value or list x argument or option",
                          [=](Chooser& c)
                          {
                              auto s = pick_string(c, "a,;", q ? 6 : 8);
                              const char sep = c.flip() ? ',' : 'a';
                              const bool exactly = c.flip();
                              const size_t min = c.pick(6), max = exactly ? 0 : c.pick(6);
                              const int how = int(c.pick(2));
                              const bool list = c.flip();
                              judge(c, {s}, how, sep, min, max, list, exactly, false);
                          }});
    k.families.push_back({"lists", std::string("every list of up to ") + (q ? "3" : "4") + " values out of 11 x every minimum and maximum from 0 to 3, or exactly that many x 4 ways to give the values x auto-exit off or on",
                          [=](Chooser& c)
                          {
                              const auto texts = pick_line(c, {"", ",", "a", "a,", ",a", "a,b", ",,", "a,b,c", "a,,b", ",a,b,", "a;b"}, q ? 3 : 4);
                              const bool exactly = c.flip();
                              const size_t min = c.pick(4), max = exactly ? 0 : c.pick(4);
                              judge(c, texts, int(c.pick(4)), ',', min, max, true, exactly, c.flip());
                          }});
    k.families.push_back({"separators", "every byte as separator x every byte as neighbour x 6 shapes of text x 3 maxima",
                          [=](Chooser& c)
                          {
                              const char sep = char(c.pick(256)), other = char(c.pick(256));
                              const auto shape = c.pick(6);
                              std::string s;
                              const std::string a(1, sep), b(1, other);
                              s = shape == 0 ? a : shape == 1 ? b : shape == 2 ? a + b : shape == 3 ? b + a : shape == 4 ? b + a + b : a + b + a;
                              judge(c, {s}, 1, sep, 0, c.pick(3), c.flip(), false, false);
                          }});
    k.families.push_back({"limits", "texts of up to 6 parts x minima and maxima around 0, the number of parts and the largest size",
                          [=](Chooser& c)
                          {
                              const auto n = c.pick(6);
                              std::string s = "p";
                              for (uint32_t i = 0; i < n; ++i)
                                  s += ",p";
                              const std::vector<size_t> limits{0, 1, 2, 3, 4, 5, 6, 7, 100, size_t(-2), size_t(-1), size_t(1) << 32, size_t(1) << 63};
                              const bool exactly = c.flip();
                              judge(c, {s}, 1, ',', c.of(limits), exactly ? 0 : c.of(limits), c.flip(), exactly, c.flip());
                          }});
    // Parts can be split again.
    k.families.push_back({"again", std::string("every text of up to ") + (q ? "6" : "7") + " characters of a , ; split on , and every part, or all of them, on ;",
                          [=](Chooser& c)
                          {
                              const auto s = pick_string(c, "a,;", q ? 6 : 7);
                              const bool each = c.flip();
                              const size_t max = c.pick(3);
                              auto& x = the_case(false);
                              const auto r = x.parse({"--link", s});
                              std::vector<Part> want;
                              for (auto& t : cut(s, ',', 0))
                                  for (auto& u : cut(t, ';', max))
                                      want.push_back({u, 2});
                              std::string got;
                              if (!each)
                                  got = run(x.stream, [&] { return r.values("-b").split(',').split(';', 0, max); });
                              else
                              {
                                  std::vector<Part> parts;
                                  for (const auto v : r.value("-b").split(','))
                                      for (const auto w : v.split(';', 0, max))
                                          parts.push_back({w.as_string(), w.argument() ? w.argument()->id() : 0});
                                  got = show(parts);
                              }
                              c.step(2);
                              c.state(hash64(s, each * 10 + max));
                              expect_same(c, "split:again", "splitting " + mc::show(s) + " twice", show(want), got, "");
                          }});
    return k;
}
