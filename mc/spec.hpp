// Description of a parser and of what can be observed about a run, shared by
// the reference model (model.cpp) and the driver of the real code (real.cpp).
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "Argos/Argos.hpp"

namespace mc
{
    using Strs = std::vector<std::string>;
    using Op = argos::OptionOperation;
    using Type = argos::OptionType;
    using Style = argos::OptionStyle;
    using Vis = argos::Visibility;
    using Code = argos::ParserResultCode;
    using argos::TextId;

    struct Act
    {
        enum Kind { ASSIGN, APPEND, CLEAR, INSERT, ERROR, ERROR_ARG, VIEW_ASSIGN, VIEW_APPEND, VIEW_CLEAR };
        Kind kind;
        std::string name;
        Strs vals;
        int max_uses = 1; // within one run
    };

    struct OptSpec
    {
        Strs flags;
        std::string argument, constant, initial, alias;
        Op op = Op::ASSIGN;
        Type type = Type::NORMAL;
        bool optional = true;
        int id = 0; // 0: numbered automatically
        bool callback = true;
        std::vector<Act> acts;
        std::string help, section;
        Vis visibility = Vis::NORMAL;
        bool text_function = false; // the help text is given as a function
    };

    struct ArgSpec
    {
        std::string name, alias;
        unsigned min = 1, max = 1;
        int id = 0;
        bool callback = true;
        std::vector<Act> acts;
        std::string help, section;
        Vis visibility = Vis::NORMAL;
        bool text_function = false; // the help text is given as a function
    };

    struct CmdSpec
    {
        std::string name;
        std::vector<ArgSpec> args;
        std::vector<OptSpec> opts;
        std::vector<CmdSpec> cmds;
        bool multi = false;
        std::optional<bool> require;
        int id = 0;
        std::string section;
        std::string current; // the section in force at the end
        std::map<TextId, std::string> texts;
        Vis visibility = Vis::NORMAL;
        std::set<TextId> text_functions; // texts given as functions
        // how the definition reaches its parent
        enum Way { DIRECT, COPY, COPY_ASSIGN, MOVE_ASSIGN, COPY_FROM, COPY_ADD, WAYS } way = DIRECT;
    };

    struct ParserSpec
    {
        CmdSpec root;
        Style style = Style::STANDARD;
        bool abbrev = false, ci = false, ign_opt = false, ign_arg = false;
        bool gen_help = false, auto_exit = false;
        std::string version;
        bool opt_cb = false, arg_cb = false; // parser-wide callbacks
        std::vector<Act> opt_acts, arg_acts;
        int error_code = 64, normal_code = 0;
        bool custom_stream = true;
        unsigned line_width = 100000;
    };

    // Gives every definition without an id a unique one.
    void number(ParserSpec& p);

    std::string describe(const ParserSpec& p);

    struct Val
    {
        std::string text;
        int src = 0; // custom id of the argument or option, 0: none
        bool operator==(const Val&) const = default;
    };

    struct CmdOut
    {
        std::string name;
        int id = 0;
        Code code = Code::NONE;
        std::vector<std::pair<std::string, std::vector<Val>>> values; // per name, sorted
        Strs unprocessed;
        int stop = -1; // id of stop option
        std::vector<CmdOut> subs;
    };

    struct Event
    {
        char kind; // o, a: own callback; O, A: parser-wide
        int id;
        std::string value;
        std::string snapshot; // values of the current command
    };

    struct Step
    {
        char kind; // O A C U
        int id;
        std::string value;
        std::string snapshot; // whole tree
    };

    struct Expected // an acceptable error
    {
        std::string command;  // full name
        Strs mentions;        // all must appear in the message
    };

    struct Outcome
    {
        enum End { RETURNED, EXITED, THREW } end = RETURNED;
        int exit_code = 0;
        std::string what; // exception text (real only)
        CmdOut root;
        bool failed = false;
        std::vector<Event> events;
        std::vector<Step> steps; // iteration only
        std::string out, err, custom; // captured streams (real only)
        // model only:
        bool undefined = false;
        std::string why_undefined;
        std::vector<Expected> errors;
        std::string help_for; // full name of the command whose help is shown
        bool version_shown = false;
        uint64_t steps_taken = 0;
        std::vector<uint64_t> states;
        std::vector<int> left; // where the unprocessed tokens stood, -1: nowhere
    };

    std::string text(const CmdOut& c, bool with_codes);
    std::string text(const std::vector<Event>& e);
    const char* name(Code c);

    // ---- model.cpp
    Outcome model_run(const ParserSpec& p, const Strs& line);
    // ---- real.cpp
    enum class Route { PARSE, PARSE_CONST, ARGV, ARGV_CONST, ITERATE, ITERATE_CONST };
    std::unique_ptr<argos::ArgumentParser> make_parser(const ParserSpec& p);
    argos::Option make_option(const OptSpec& o);
    argos::Argument make_argument(const ArgSpec& a);
    argos::Command make_command(const CmdSpec& c);
    Outcome real_run(const ParserSpec& p, const Strs& line, Route route = Route::PARSE);
    Outcome real_run_on(argos::ArgumentParser& parser, const ParserSpec& p, const Strs& line, Route route);
    // views: what the views of arguments and options give is compared with what
    // their names give, and differences are reported as additional values.
    CmdOut observe(const argos::ParsedArguments& pa, bool views = true);

    // What the console answers when asked for its width (-1: it is none).
    struct Console
    {
        int columns = -1;
        int calls = 0;
        std::vector<int> then;   // answers to the queries after the first
        int error = 25;          // errno when it is none (ENOTTY)
        int scribble = 0;        // columns written by a query that fails
        int elsewhere = -1;      // what anything but standard output answers
    };
    Console& console();

    // RAII capture of std::cout / std::cerr
    struct Capture
    {
        Capture();
        ~Capture();
        std::string out() const;
        std::string err() const;
        struct Impl;
        std::unique_ptr<Impl> impl;
    };

    // Redirects callbacks of parsers built by make_parser to a log.
    struct RunLog
    {
        std::vector<Event> events;
        std::map<const void*, int> uses;
    };
    extern thread_local RunLog* g_log;

    class Chooser;
    struct CompareOpts
    {
        bool values = true, codes = true, events = true, unprocessed = true, sources = true;
        bool iterate = false, errors = false;
        bool failed_codes = false; // also the status of every result of a failed parse
        std::string what = "outcome";
    };
    // Runs the model and the real code and reports any disagreement.
    Outcome compare(Chooser& c, const ParserSpec& p, const Strs& line,
                    const CompareOpts& o = {}, Route route = Route::PARSE);
    // Same, with an already computed model outcome.
    void compare_with(Chooser& c, const ParserSpec& p, const Strs& line, const Outcome& m,
                      const Outcome& r, const CompareOpts& o);

    // Shorthands for specs
    inline OptSpec opt(Strs flags, std::string argument = {})
    {
        OptSpec o;
        o.flags = std::move(flags);
        o.argument = std::move(argument);
        return o;
    }
    inline ArgSpec arg(std::string name, unsigned min = 1, unsigned max = 1)
    {
        ArgSpec a;
        a.name = std::move(name);
        a.min = min;
        a.max = max;
        return a;
    }
    inline CmdSpec cmd(std::string name, std::vector<ArgSpec> args = {},
                       std::vector<OptSpec> opts = {}, std::vector<CmdSpec> cmds = {})
    {
        CmdSpec c;
        c.name = std::move(name);
        c.args = std::move(args);
        c.opts = std::move(opts);
        c.cmds = std::move(cmds);
        return c;
    }
}
