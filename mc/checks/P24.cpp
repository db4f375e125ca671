// Numeric conversions against independent parsers: a digit-by-digit one over
// 128-bit integers, and std::from_chars for floating point.
#include "common.hpp"
#include <charconv>
#include <cmath>
#include <cstring>
#include <limits>
using namespace mc;

namespace
{
    using Big = __int128;

    bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

    int digit(char c)
    {
        if (c >= '0' && c <= '9')
            return c - '0';
        if (c >= 'a' && c <= 'z')
            return c - 'a' + 10;
        if (c >= 'A' && c <= 'Z')
            return c - 'A' + 10;
        return 99;
    }

    struct Number
    {
        enum { NONE, VALUE, HUGE, OPEN } kind = NONE; // OPEN: may be refused or accepted with this value
        Big value = 0;
    };

    // White space, a sign and a prefix are allowed in front, as strtol allows.
    Number integer(const std::string& s, int base)
    {
        if (base < 0 || base == 1 || base > 36)
            return {};
        size_t i = 0;
        while (i < s.size() && space(s[i]))
            ++i;
        bool negative = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            negative = s[i++] == '-';
        Number n;
        n.kind = Number::VALUE;
        auto prefix = [&](char a, char b, int d)
        {
            return i + 2 < s.size() && s[i] == '0' && (s[i + 1] == a || s[i + 1] == b) && digit(s[i + 2]) < d;
        };
        if ((base == 0 || base == 16) && prefix('x', 'X', 16))
        {
            i += 2;
            base = 16;
        }
        else if ((base == 0 || base == 2) && prefix('b', 'B', 2))
        {
            // newer C libraries only
            i += 2;
            base = 2;
            n.kind = Number::OPEN;
        }
        else if (base == 0)
            base = i < s.size() && s[i] == '0' ? 8 : 10;
        if (i == s.size())
            return {};
        bool huge = false;
        for (; i < s.size(); ++i)
        {
            const auto d = digit(s[i]);
            if (d >= base)
                return {};
            n.value = n.value * base + d;
            if (n.value > (Big(1) << 100))
            {
                huge = true;
                n.value = Big(1) << 100;
            }
        }
        if (huge)
            n.kind = Number::HUGE;
        if (negative)
            n.value = -n.value;
        return n;
    }

    std::string num(Big b)
    {
        if (b < 0)
            return "-" + num(-b);
        return (b >= 10 ? num(b / 10) : std::string()) + char('0' + int(b % 10));
    }

    // Floating-point text as strtod allows it.
    template <typename T>
    std::optional<T> floating(const std::string& s, bool& open)
    {
        open = false;
        size_t i = 0;
        while (i < s.size() && space(s[i]))
            ++i;
        bool negative = false;
        if (i < s.size() && (s[i] == '-' || s[i] == '+'))
            negative = s[i++] == '-';
        if (i == s.size() || s[i] == '-' || s[i] == '+')
            return {};
        const auto* first = s.data() + i;
        const auto* last = s.data() + s.size();
        auto format = std::chars_format::general;
        if (last - first > 2 && first[0] == '0' && (first[1] | 32) == 'x')
        {
            first += 2;
            format = std::chars_format::hex;
            if (!(digit(*first) < 16 || *first == '.'))
                return {};
        }
        T x{};
        const auto [end, ec] = std::from_chars(first, last, x, format);
        if (end != last || ec == std::errc::invalid_argument)
            return {};
        if (ec == std::errc::result_out_of_range)
        {
            // too large is an error, too small may be one or zero
            open = true;
            bool large = false;
            const std::string t(first, last);
            const auto e = t.find_first_of(format == std::chars_format::hex ? "pP" : "eE");
            long exponent = e == t.npos ? 0 : strtol(t.c_str() + e + 1, nullptr, 10);
            large = exponent > 0 || e == t.npos;
            if (large)
                return {};
            return T(negative ? -0.0 : 0.0);
        }
        open = std::isnan(x) && s.find('(') != s.npos; // a payload may not fit
        // glibc's strtof rounds some hexadecimal numbers next to half of the
        // smallest subnormal to zero
        open = open || (x == std::numeric_limits<T>::denorm_min() && format == std::chars_format::hex && sizeof(T) < sizeof(double));
        return negative ? -x : x;
    }

    template <typename T>
    std::string bits(T x)
    {
        if (std::isnan(x))
            return "nan";
        char buf[80];
        snprintf(buf, sizeof buf, "%a", double(x));
        return buf;
    }

    // A parser with one option, and the means to read it in every way.
    struct Reader
    {
        ParserSpec p;
        std::unique_ptr<argos::ArgumentParser> parser;
        std::ostringstream stream;
        Reader()
        {
            p = mc::parser(mc::root({}, {append({"-n", "--number="}, "N")}));
            p.root.texts[TextId::ERROR_USAGE] = "MARK";
            number(p);
            parser = make_parser(p);
            parser->stream(&stream);
        }
        argos::ParsedArguments parse(const Strs& texts)
        {
            Strs line;
            std::vector<std::string_view> v;
            for (auto& t : texts)
                line.push_back("--number=" + t);
            for (auto& t : line)
                v.push_back(t);
            return std::as_const(*parser).parse(v);
        }
    };

    Reader& reader()
    {
        static Reader r;
        return r;
    }

    // Runs `read` and says what it gave.
    template <typename F>
    std::string result(F&& read)
    {
        auto& r = reader();
        r.stream.str({});
        std::string s;
        try
        {
            s = read();
        }
        catch (argos::ArgosException&)
        {
            s = "error";
        }
        const auto& out = r.stream.str();
        if ((s == "error") != !out.empty())
            s += " with output " + out;
        if (s == "error" && (out.rfind("prog: -n, --number=: ", 0) != 0 || out.size() < 6 || out.substr(out.size() - 6) != "\nMARK\n"))
            s += " with output " + out;
        return s;
    }

    template <typename T>
    void check_integer(Chooser& c, const argos::ParsedArguments& pa, const std::string& text, int base, const char* type,
                       T (argos::ArgumentValue::*single)(T, int) const, std::vector<T> (argos::ArgumentValues::*list)(const std::vector<T>&, int) const)
    {
        const auto n = integer(text, base);
        std::string want = "error";
        if (n.kind == Number::VALUE || n.kind == Number::OPEN)
            if (n.value >= Big(std::numeric_limits<T>::min()) && n.value <= Big(std::numeric_limits<T>::max()))
                want = num(n.value);
        for (bool many : {false, true})
        {
            const auto got = result([&]
            {
                if (!many)
                    return num(Big((pa.value("-n").*single)(T(77), base)));
                const auto v = (pa.values("-n").*list)({T(77), T(78)}, base);
                return v.size() == 1 ? num(Big(v[0])) : std::to_string(v.size()) + " values";
            });
            if (got != want && !(n.kind == Number::OPEN && got == "error"))
                c.fail(std::string("integer:") + type, "reading " + mc::show(text) + " as " + (many ? "list of " : "") + type + " in base " + std::to_string(base) + "\nexpected: " + want + "\nobserved: " + got);
        }
        c.outcome(want == "error" ? "error" : "value");
    }

    void check_integers(Chooser& c, const argos::ParsedArguments& pa, const std::string& text, int base)
    {
        using V = argos::ArgumentValue;
        using L = argos::ArgumentValues;
        check_integer<int>(c, pa, text, base, "int", &V::as_int, &L::as_ints);
        check_integer<unsigned>(c, pa, text, base, "unsigned", &V::as_uint, &L::as_uints);
        check_integer<long>(c, pa, text, base, "long", &V::as_long, &L::as_longs);
        check_integer<unsigned long>(c, pa, text, base, "unsigned long", &V::as_ulong, &L::as_ulongs);
        check_integer<long long>(c, pa, text, base, "long long", &V::as_llong, &L::as_llongs);
        check_integer<unsigned long long>(c, pa, text, base, "unsigned long long", &V::as_ullong, &L::as_ullongs);
        c.step(12);
    }

    template <typename T>
    void check_float(Chooser& c, const argos::ParsedArguments& pa, const std::string& text, const char* type,
                     T (argos::ArgumentValue::*single)(T) const, std::vector<T> (argos::ArgumentValues::*list)(const std::vector<T>&) const)
    {
        bool open;
        const auto n = floating<T>(text, open);
        const auto want = n ? bits(*n) : "error";
        for (bool many : {false, true})
        {
            const auto got = result([&]
            {
                if (!many)
                    return bits((pa.value("-n").*single)(T(77)));
                const auto v = (pa.values("-n").*list)({T(77), T(78)});
                return v.size() == 1 ? bits(v[0]) : std::to_string(v.size()) + " values";
            });
            if (got != want && !(n && open && got == "error"))
                c.fail(std::string("floating:") + type, "reading " + mc::show(text) + " as " + (many ? "list of " : "") + type + "\nexpected: " + want + "\nobserved: " + got);
        }
        c.outcome(n ? "number" : "error");
    }

    void check_floats(Chooser& c, const argos::ParsedArguments& pa, const std::string& text)
    {
        using V = argos::ArgumentValue;
        using L = argos::ArgumentValues;
        check_float<float>(c, pa, text, "float", &V::as_float, &L::as_floats);
        check_float<double>(c, pa, text, "double", &V::as_double, &L::as_doubles);
        c.step(4);
    }

    void check_bool(Chooser& c, const argos::ParsedArguments& pa, const std::string& text)
    {
        const bool want = !text.empty() && text != "0" && text != "false";
        if (pa.value("-n").as_bool(!want) != want || pa.value("-n").as_bool() != want)
            c.fail("bool", "reading " + mc::show(text) + " as bool, expected " + (want ? "true" : "false"));
        c.step();
    }

    std::string digits(Big n, int base, bool upper)
    {
        if (n < 0)
            return "-" + digits(-n, base, upper);
        const auto d = int(n % base);
        const char x = char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10);
        return (n >= base ? digits(n / base, base, upper) : std::string()) + x;
    }

    std::string any(Chooser& c, const Strs& alphabet, size_t most)
    {
        std::string s;
        const auto n = c.pick(uint32_t(most + 1));
        for (size_t i = 0; i < n; ++i)
            s += alphabet[c.pick(uint32_t(alphabet.size()))];
        return s;
    }
}

Check mc::make_check(Tier tier)
{
    Check k;
    k.id = "P24";
    const bool q = quick(tier);
    const Strs chars{"0", "1", "7", "8", "9", "a", "f", "z", "x", "b", "-", "+", " ", "\t", ".", std::string(1, '\0'), "Z", "_"};
    auto text_family = [&](std::string name, Strs alphabet, size_t most, std::vector<int> bases, bool floats)
    {
        k.families.push_back({name, "every text of up to " + std::to_string(most) + " pieces of " + show(alphabet) + " read " + (bases.empty() ? "" : "as 6 integer types in " + std::to_string(bases.size()) + " bases") + (floats ? " as float and double" : "") + ", singly and as a list, and as bool",
                              [=](Chooser& c)
                              {
                                  const auto text = any(c, alphabet, most);
                                  const auto pa = reader().parse({text});
                                  c.trace();
                                  c.state(hash64(text));
                                  for (auto b : bases)
                                      check_integers(c, pa, text, b);
                                  if (floats)
                                      check_floats(c, pa, text);
                                  check_bool(c, pa, text);
                              }});
    };
    std::vector<int> all{-1, -10, 37, 1000000};
    for (int b = 0; b <= 36; ++b)
        all.push_back(b);
    text_family("integer texts", chars, q ? 4 : 5, {0, 2, 8, 10, 16, 36}, false);
    text_family("every base", chars, q ? 2 : 3, all, true);
    text_family("floating-point texts", {"0", "1", "9", "5", ".", "e", "E", "-", "+", "x", "p", "f", " ", std::string(1, '\0')}, q ? 5 : 6, {}, true);
    text_family("floating-point words", {"inf", "INF", "infinity", "nan", "NaN", "nan(", ")", "0x", "1", ".", "e5", "e-", "p3", "-", "+", " ", "38", "39", "45", "46", "308", "309", "324", "325", "400", "17976931348623157", "34028235", "34028236"}, q ? 4 : 5, {}, true);
    text_family("boolean texts", {"0", "1", "false", "true", "FALSE", "False", "no", "yes", "off", " ", "f", "t", "alse", std::string(1, '\0'), "00", "-0", "0.0"}, 3, {10}, true);
    // Every byte around a number.
    k.families.push_back({"bytes", "every byte before, inside, after and alone with a number, read as every type in 6 bases",
                          [=](Chooser& c)
                          {
                              const auto place = c.pick(5);
                              const std::string b(1, char(c.pick(256)));
                              const auto text = place == 0 ? b + "10" : place == 1 ? "1" + b + "0" : place == 2 ? "10" + b : place == 3 ? b : b + "-" + b + "1";
                              const auto pa = reader().parse({text});
                              c.trace();
                              c.state(hash64(text));
                              for (auto base : {0, 2, 8, 10, 16, 36})
                                  check_integers(c, pa, text, base);
                              check_floats(c, pa, text);
                              check_bool(c, pa, text);
                          }});
    // The limits of the types.
    std::vector<Big> limits;
    for (int bitsize : {0, 8, 16, 31, 32, 33, 62, 63, 64, 65, 66})
        for (int sign : {1, -1})
            limits.push_back(sign * (Big(1) << bitsize));
    const int around = q ? 3 : 40;
    k.families.push_back({"limits", "every integer within " + std::to_string(around) + " of +-2^n for n in 0 8 16 31 32 33 62..66 in every base from 0 to 36, with lower- and upper-case digits, 4 prefixes, 0, 1 or 30 leading zeros and 4 endings",
                          [=](Chooser& c)
                          {
                              const auto n = c.of(limits) + int(c.pick(uint32_t(2 * around + 1))) - around;
                              const int base = int(c.pick(37));
                              const bool upper = c.flip();
                              auto t = digits(n < 0 ? -n : n, base < 2 ? 10 : base, upper);
                              t = std::string(Strs{"", "0", std::string(30, '0')}[c.pick(3)]) + t;
                              if (base == 16 || base == 0)
                                  if (c.flip())
                                      t = "0x" + digits(n < 0 ? -n : n, 16, upper);
                              t = (n < 0 ? "-" : std::string(Strs{"", "+"}[c.pick(2)])) + t;
                              t = Strs{"", " "}[c.pick(2)] + t;
                              t += Strs{"", " ", "0", "_"}[c.pick(4)];
                              const auto pa = reader().parse({t});
                              c.trace();
                              c.state(hash64(t, uint64_t(base)));
                              check_integers(c, pa, t, base);
                          }});
    // Round trips of integers with at most three bits unlike their neighbours.
    k.families.push_back({"integer round trips", "+-(2^i +- 2^j +- 2^k) for all i, j, k below 65 (thorough; quick: j = k) as text in 5 bases",
                          [=](Chooser& c)
                          {
                              Big n = Big(1) << c.pick(65);
                              const auto j = c.pick(65);
                              n += c.flip() ? Big(1) << j : -(Big(1) << j);
                              if (!q)
                              {
                                  const auto l = c.pick(65);
                                  n += c.flip() ? Big(1) << l : -(Big(1) << l);
                              }
                              if (c.flip())
                                  n = -n;
                              const int base = c.of(std::vector<int>{10, 16, 8, 2, 36});
                              const auto t = digits(n, base, false);
                              const auto pa = reader().parse({t});
                              c.trace();
                              c.state(hash64(t, uint64_t(base)));
                              check_integers(c, pa, t, base);
                          }});
    // Round trips of floating-point numbers, by their bit patterns.
    k.families.push_back({"float round trips", std::string("both signs x every exponent of float x mantissas with at most ") + (q ? "one" : "three") + " bits set or unset, as shortest text, 9 digits, hexadecimal and fixed",
                          [=](Chooser& c)
                          {
                              uint32_t b = (c.flip() ? 0x80000000u : 0) | c.pick(255) << 23;
                              uint32_t m = 0;
                              for (int i = 0; i < (q ? 1 : 3); ++i)
                                  if (const auto at = c.pick(24))
                                      m |= 1u << (at - 1);
                              if (c.flip())
                                  m ^= 0x7FFFFFu;
                              b |= m;
                              float x;
                              memcpy(&x, &b, 4);
                              char buf[400];
                              switch (c.pick(4))
                              {
                              case 0: *std::to_chars(buf, buf + 400, x).ptr = 0; break;
                              case 1: snprintf(buf, 400, "%.9g", double(x)); break;
                              case 2: snprintf(buf, 400, "%a", double(x)); break;
                              case 3: *std::to_chars(buf, buf + 400, x, std::chars_format::fixed).ptr = 0; break;
                              }
                              const auto pa = reader().parse({buf});
                              c.trace();
                              c.state(hash64(buf));
                              const auto got = result([&] { return bits(pa.value("-n").as_float()); });
                              if (got != bits(x))
                                  c.fail("floating:round trip", std::string("reading ") + buf + " as float\nexpected: " + bits(x) + "\nobserved: " + got);
                              check_floats(c, pa, buf);
                          }});
    k.families.push_back({"double round trips", std::string("both signs x every exponent of double x mantissas with at most ") + (q ? "one" : "two") + " bits set or unset, as shortest text, 17 digits and hexadecimal",
                          [=](Chooser& c)
                          {
                              uint64_t b = (c.flip() ? 1ull << 63 : 0) | uint64_t(c.pick(2047)) << 52;
                              uint64_t m = 0;
                              for (int i = 0; i < (q ? 1 : 2); ++i)
                                  if (const auto at = c.pick(53))
                                      m |= 1ull << (at - 1);
                              if (c.flip())
                                  m ^= (1ull << 52) - 1;
                              b |= m;
                              double x;
                              memcpy(&x, &b, 8);
                              char buf[400];
                              switch (c.pick(3))
                              {
                              case 0: *std::to_chars(buf, buf + 400, x).ptr = 0; break;
                              case 1: snprintf(buf, 400, "%.17g", x); break;
                              case 2: snprintf(buf, 400, "%a", x); break;
                              }
                              const auto pa = reader().parse({buf});
                              c.trace();
                              c.state(hash64(buf));
                              const auto got = result([&] { return bits(pa.value("-n").as_double()); });
                              if (got != bits(x))
                                  c.fail("floating:round trip", std::string("reading ") + buf + " as double\nexpected: " + bits(x) + "\nobserved: " + got);
                              check_floats(c, pa, buf);
                          }});
    // Lists are converted element by element.
    const Strs elements{"1", "-2", "x", "2147483648", "99999999999999999999", "0x10", "010", "", "1.5"};
    k.families.push_back({"lists", "every list of up to " + std::to_string(q ? 3 : 4) + " values of " + show(elements) + " read as 8 types of list in 3 bases",
                          [=](Chooser& c)
                          {
                              const auto line = pick_line(c, elements, q ? 3 : 4);
                              const int base = c.of(std::vector<int>{10, 0, 16});
                              const auto pa = reader().parse(line);
                              c.trace();
                              c.state(hash64(show(line), uint64_t(base)));
                              auto judge = [&](const char* type, const std::string& want, const std::string& got)
                              {
                                  c.step();
                                  if (want != got)
                                      c.fail(std::string("list:") + type, "reading " + show(line) + " as list of " + type + " in base " + std::to_string(base) + "\nexpected: " + want + "\nobserved: " + got);
                                  c.outcome(want == "error" ? "error" : "list");
                              };
                              auto ints = [&](const char* type, auto list, auto one)
                              {
                                  using T = decltype(one);
                                  std::string want;
                                  for (auto& t : line)
                                  {
                                      const auto n = integer(t, base);
                                      if (n.kind != Number::VALUE || n.value < Big(std::numeric_limits<T>::min()) || n.value > Big(std::numeric_limits<T>::max()))
                                      {
                                          want = "error";
                                          break;
                                      }
                                      want += num(n.value) + " ";
                                  }
                                  if (line.empty())
                                      want = "5 6 ";
                                  judge(type, want, result([&]
                                  {
                                      std::string s;
                                      for (auto x : (pa.values("--number=").*list)({T(5), T(6)}, base))
                                          s += num(Big(x)) + " ";
                                      return s;
                                  }));
                              };
                              using L = argos::ArgumentValues;
                              ints("int", &L::as_ints, 0);
                              ints("unsigned", &L::as_uints, 0u);
                              ints("long", &L::as_longs, 0l);
                              ints("unsigned long", &L::as_ulongs, 0ul);
                              ints("long long", &L::as_llongs, 0ll);
                              ints("unsigned long long", &L::as_ullongs, 0ull);
                              auto floats = [&](const char* type, auto list, auto one)
                              {
                                  using T = decltype(one);
                                  std::string want;
                                  for (auto& t : line)
                                  {
                                      bool open;
                                      const auto n = floating<T>(t, open);
                                      if (!n)
                                      {
                                          want = "error";
                                          break;
                                      }
                                      want += bits(*n) + " ";
                                  }
                                  if (line.empty())
                                      want = bits(T(5)) + " ";
                                  judge(type, want, result([&]
                                  {
                                      std::string s;
                                      for (auto x : (pa.values("--number=").*list)({T(5)}))
                                          s += bits(x) + " ";
                                      return s;
                                  }));
                              };
                              floats("float", &L::as_floats, 0.0f);
                              floats("double", &L::as_doubles, 0.0);
                          }});
    return k;
}
