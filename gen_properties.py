#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":state,"meaning":"state the mechanism depends on","where":files[0]}]
    if observe:a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/Argos/";I="include/Argos/"
AI=S+"ArgumentIteratorImpl.cpp";SO=S+"StandardOptionIterator.cpp";OI=S+"OptionIterator.cpp";CD=S+"CommandData.cpp";AC=S+"ArgumentCounter.cpp";PI=S+"ParsedArgumentsImpl.cpp";HT=S+"HelpText.cpp"
R="ParsedArguments returned by ArgumentParser::parse"

p("P01","Every token is classified and every flag matched by the option style's rules",
"In each option style, a token of at least two characters that begins with the style's prefix is an option and every other token (including a lone prefix character and the empty token) is a positional or sub-command. An option token selects exactly the option that owns the spelled flag, an unknown one is an error, and the option takes its value from exactly the place the style defines: the rest of the token after its '=', the rest of a short-option cluster, or the whole next token, whatever that token looks like (an empty value included).",
["inputs","configurations"],"for every option style, every valid set of option definitions and every sequence of tokens",
"The tests try a few dozen fixed command lines; the tokenisers keep a cursor whose state depends on the whole preceding token history, so only enumeration of token sequences per style reaches every cursor state.",
[SO,OI,CD,AI],[("tokeniser cursor",SO+":next/next_value; "+OI+":next/next_value"),("flag index lookup",CD+":find_option"),("option test",AI+":is_option")],state="m_args/m_pos of the option iterators",observe=R)
p("P02","Option values are the exact result of the history of option occurrences",
"After a successful parse the list of values held under an option's name is what results from replaying the occurrences from left to right: an assigning occurrence leaves exactly its own value, an appending one adds its value last, a clearing one leaves none, and a no-operation one changes nothing. A value is the option's constant if it has one, \"1\" for a plain flag, otherwise the text given on the command line byte for byte; an initial value, on the program or on any sub-command, is present before the first occurrence and behaves like an earlier value.",
["histories","configurations"],"for every combination of operations sharing a value and every sequence of occurrences",
"Tests use one or two occurrences of one option; the multimap update paths differ by number of existing values, by which operation preceded, and by where the initial value came from.",
[PI,AI,S+"OptionData.cpp"],[("value store",PI+":assign_value/append_value/clear_value"),("operation dispatch",AI+":process_option"),("initial values",AI+":constructor/process_command")],state="ParsedArgumentsImpl::m_values",observe=R)
p("P03","No command-line token is lost, duplicated, altered or reordered",
"In every successful parse each command-line token is accounted for exactly once: as a flag, as an option's value, as a positional value, as a sub-command name, or as an unprocessed argument. The values of each argument and of each appending option, and the unprocessed list, keep their command-line order and exact bytes, including empty strings, spaces, NUL-free binary and very long tokens.",
["inputs","configurations"],"for every command line made of distinguishable tokens, in every style, with and without ignoring of undefined tokens and with early stops at every position",
"A conservation law over all positions of all tokens cannot be sampled by fixed examples; cursor slips only show for particular neighbours (after '=', after a cluster, after an early stop).",
[AI,SO,OI,PI],[("copy of the remainder",AI+":copy_remaining_arguments_to_parser_result"),("remaining arguments",SO+":remaining_arguments; "+OI+":remaining_arguments")],observe=R)
p("P04","Positional values are distributed between arguments within their counts",
"Whenever the number of positional values lies between the sum of the minimum and the sum of the maximum counts of the declared arguments, the parse succeeds, every argument receives a number of consecutive values within its own minimum and maximum, and the values are handed out in declaration order with each earlier argument taking as many as possible while leaving the later ones their minimum. With fewer or more values the parse fails. Options between, before or after the values, known or ignored, never change the distribution.",
["configurations","inputs"],"for every list of arguments with any minimum and maximum counts, and every number of values, with options interspersed",
"The distribution needs a look-ahead over the whole remaining command line that must agree with what the later processing does; tests contain a handful of count combinations and miss most shapes.",
[AC,AI],[("distribution",AC+":make_argument_counters"),("look-ahead",AI+":count_arguments"),("completeness",AC+":is_complete")],state="ArgumentCounter::m_counters",observe=R)
p("P05","The placement of options among positionals does not matter",
"As long as no option ends option or argument processing, moving an option (together with its value) to any other position between the positional values of the same command leaves every value, the unprocessed positionals and the success of the parse unchanged. Options that do not share a value may likewise be given in any relative order.",
["inputs"],"for every command line and every interleaving of its option groups with its positionals and of independent options with each other",
"It is a relation between all interleavings of one multiset of tokens; the tests compare none.",
[AI,AC],[("look-ahead",AI+":count_arguments"),("dispatch",AI+":next")],observe=R)
p("P06","A parse succeeds exactly when everything required is present",
"A parse reports success only if every mandatory option of the program and of every sub-command that was used has a value, every used command's arguments got at least their minimum, and every used command that requires a sub-command got one. If all of that holds and every token is known the parse does succeed, and otherwise it fails; a help, stop or exit option met before the failure waives the requirements, while a last-argument option does not.",
["inputs","configurations"],"for every command tree with mandatory and optional parts at every level, and every subset and order of them on the command line",
"Each missing-part combination at each nesting level is a separate path; tests check one missing option on a flat parser.",
[AI,CD],[("final check",AI+":check_argument_and_option_counts"),("mandatory options",AI+":has_all_mandatory_options"),("require_subcommand",CD+":update_require_command")],observe=R)
p("P07","Equivalent spellings of the same options give the same result",
"In standard style a cluster of short options means the same as the options given separately, a short option's value may be joined or separate, and a long option's value may follow '=' or be the next token; in slash and dash style a value may follow '=' or be the next token. All equivalent spellings of one command line give identical values, callbacks and success.",
["inputs"],"for every command line over options with and without arguments and every choice of spelling for every occurrence",
"It relates all spelling choices at all positions simultaneously (2^k variants per line); a unit test fixes one.",
[SO,OI,CD],[("cluster cursor",SO+":next"),("'=' handling",CD+":find_option")],observe=R)
p("P08","Processing-ending options take effect exactly where they stand",
"Everything before an option that ends processing is processed normally and nothing after it is: the remaining tokens (with any unread rest of a cluster as one dashed token) are the unprocessed arguments in order. Help, stop and exit (without auto-exit) end in the stop status naming that option and ignore missing requirements; a last-argument option ends the line (or hands control back to a parent that allows several sub-commands) and keeps requirements enforced; after a last-option option every token is a positional or sub-command name, whatever it looks like.",
["inputs","configurations"],"for every option type at every position of every command line, in the program and in sub-commands",
"The effect depends on the cursor position inside clusters and on the command stack; tests place each type in one spot.",
[AI,SO],[("type dispatch",AI+":process_option"),("remaining arguments",SO+":remaining_arguments"),("look-ahead stop",AI+":count_arguments")],observe=R)
p("P09","Abbreviated flags resolve exactly when they are unambiguous",
"With abbreviations allowed a token that is not itself a defined flag selects an option exactly when it is a proper prefix of one single defined flag of the current command, and is an unknown option when it is a prefix of none or of several; a token that spells a flag completely always selects that flag even if it is also a prefix of others. With abbreviations disallowed only complete flags match; an abbreviation may carry its value after '=' like the full flag, and positional tokens are never treated as abbreviations.",
["configurations","inputs"],"for every set of flags over a small alphabet and every prefix or non-prefix token, in every style, with and without case-insensitivity",
"Ambiguity depends on the whole sorted flag set around the probe; tests try one set of flags.",
[CD,S+"StringUtilities.cpp"],[("prefix lookup",CD+":find_option_impl")],state="CommandData::option_index",observe=R)
p("P10","Case-insensitive matching ignores exactly the case of ASCII letters",
"With case-insensitivity on, a flag or sub-command name matches a token exactly when the two differ at most in the case of ASCII letters; every other byte, including the punctuation around the letters in ASCII and all non-ASCII bytes, must be identical. With it off, matching is exact; every defined flag remains reachable whatever other flags are defined, and two flags equal up to case are rejected as conflicting exactly when it is on.",
["configurations","inputs"],"for every pair and small set of flags over letters of both cases, digits, punctuation and non-ASCII bytes",
"Lookup is a binary search that is only correct if the comparison is a strict weak order over all byte strings; a test with two letters cannot show that.",
[S+"StringUtilities.cpp",CD],[("comparison",S+"StringUtilities.cpp:compare_ci"),("index",CD+":build_option_index")],observe=R)
p("P11","Sub-command lines are parsed in the scope of the command they follow",
"A sub-command name switches parsing to that sub-command: later options and positionals are interpreted only by its own definitions, recorded only in its own result, and never by or in its parent, a sibling or a child, at any nesting depth. An unknown name where a sub-command is expected is an error, and the result tree mirrors the sequence of names on the command line, with names equal to option values or option-like tokens never mistaken for commands.",
["inputs","configurations"],"for every command tree up to a depth with deliberately overlapping flags and names, and every token sequence",
"Scoping errors need the same name or flag in two levels and a specific order; the tests use disjoint names at depth one.",
[AI,CD],[("command switch",AI+":process_command"),("lookup",CD+":find_command")],state="m_command, m_parsed_args stack",observe=R)
p("P12","A multi-command line is the sequence of its sub-command invocations",
"Where several sub-commands are allowed, a sibling's name starts the next sub-command exactly when the current one has been given all the arguments it requires; before that it is an ordinary argument value, and a last-argument option ends the current sub-command explicitly. The result lists one entry per invocation in command-line order, repeated commands included, each with exactly the values it would have if parsed alone.",
["histories","configurations"],"for every set of sibling sub-commands with any argument counts and every sequence of invocations",
"Each invocation restarts the argument look-ahead with state left by the previous one; tests run two or three fixed sequences.",
[AI,AC],[("sibling switch",AI+":find_sibling_command/reactivate_multi_command_parent"),("look-ahead limit",AI+":count_arguments")],state="m_parsed_args stack",observe=R)
p("P13","Names linked by aliases share one value, whatever the declaration order",
"Arguments and options of one command that are connected, directly or through any chain of common names, flags and aliases, hold one shared value readable under every one of those names, and unconnected ones never share. The order in which they are declared makes no difference, and each value reports the argument or option that set it.",
["configurations","histories"],"for every small graph of alias links, every declaration order, and every sequence of occurrences",
"Linking is a closure over a graph; tests check one direct link in one order.",
[CD,PI],[("id assignment",CD+":set_internal_ids"),("name table",PI+":constructor")],observe=R)
p("P14","Callbacks run once per occurrence, in order, with the right view and value",
"Each processed occurrence of an argument or option calls its own callback once and then the parser-wide callback for its kind once, in command-line order, with the view of that definition and the value of that occurrence, after that value has been stored and before the next token is processed; nothing else calls them. Reads through the callback's builder see exactly the state at that moment, and assign, append and clear through it have the same lasting effect as option operations, even on the value being delivered.",
["histories","configurations"],"for every command line and every choice of builder action in every callback",
"Callback interactions depend on which callback changed which value when; tests use one callback doing one thing.",
[AI,S+"ParsedArgumentsBuilder.cpp",PI],[("callback calls",AI+":process_option/process_argument"),("builder",S+"ParsedArgumentsBuilder.cpp")],observe="callback log and "+R)
p("P15","Arguments inserted by a callback act as if typed right after the current one",
"Tokens that a callback inserts are processed as though they had stood on the command line immediately after the token (or cluster letter) being processed, in the given order, before anything that followed it; the outcome equals that of the expanded command line wherever the positional values already handed out agree. No argument ever receives more than its maximum count, nothing that followed is lost, and insertions may nest.",
["histories","inputs"],"for every command line and every inserted token list, from option and argument callbacks, at every position including inside clusters and before sub-commands",
"Insertion rewrites the pending token buffer and the argument look-ahead in mid-flight; tests insert once in one spot.",
[AI,SO,OI,AC],[("insertion",SO+":insert; "+OI+":insert"),("recount",AI+":update_arguments")],observe=R)
p("P16","Iterating over a command line agrees with parsing it in one go",
"Iteration yields one step per processed option, argument, sub-command or ignored unknown token, in command-line order, with the matching definition and value, and ends with the same values, unprocessed arguments and status as a one-go parse of the same line. At any time the iterator gives access to the whole result, which reflects exactly the tokens processed so far, also through objects obtained earlier, and stepping past the end keeps reporting the end.",
["histories","inputs"],"for every command line and every prefix of its iteration",
"It compares the complete state after every step of every line; tests check a few lines at the end.",
[S+"ArgumentIterator.cpp",AI],[("step",AI+":next"),("public step",S+"ArgumentIterator.cpp:next")],observe="ArgumentIterator::next results and live ParsedArguments")
p("P17","Parses of one parser are independent of each other",
"A parser that is used through its repeatable (const) operations gives the same result for a command line as a freshly defined parser, whatever lines were parsed, iterated or helped before and however several iterations are interleaved; nothing set by one run, callbacks' effects included, is visible in another, be it a run of the same parser or of a different one. Results stay valid and unchanged after the parser and the other results are gone.",
["schedules","histories"],"for every sequence of parses on one parser and every interleaving of the steps of two or three simultaneous iterations",
"Leakage between runs needs a particular earlier run or interleaving; tests use each parser once.",
[S+"ArgumentParser.cpp",CD],[("copying of definitions",S+"ArgumentParser.cpp:make_copy; "+CD+":copy constructor")],observe=R)
p("P18","Objects that were moved from or used up are rejected, never misused",
"Any operation on a parser, definition or iterator that has been moved from, added elsewhere or consumed by a one-shot parse reports the library's exception and has no other effect, and iterating on after an error does too; it never crashes. Operations on valid objects in any order keep working on exactly the state they were given, and moving an object transfers its complete state.",
["histories"],"for every sequence of definition, move, parse and query operations on a small set of objects",
"It is a protocol over operation sequences; tests try two or three moved-from calls.",
[S+"ArgumentParser.cpp",S+"Command.cpp",S+"Option.cpp",S+"Argument.cpp",S+"ArgumentIterator.cpp"],[("guards",S+"ArgumentParser.cpp:check_data; "+S+"Command.cpp:check_command")],observe="exceptions thrown by the public API")
p("P19","Ignored undefined options and arguments are passed through untouched",
"With undefined options ignored, an undefined long option token, or undefined single short option, is put on the unprocessed list whole and parsing goes on as if it had not been there; with undefined arguments ignored, the same holds for positionals beyond the declared ones. With the corresponding setting off the same token is an error, and neither setting changes how known tokens are interpreted.",
["inputs","configurations"],"for every combination of the two settings, every position of undefined tokens and every style",
"The unprocessed order and the neutral effect on the argument look-ahead hold per position; tests place one unknown token.",
[AI],[("unknown option",AI+":process_option"),("surplus argument",AI+":process_argument")],observe=R)
p("P20","Filtering argv leaves exactly the program name and the unprocessed tokens",
"After a parse, filtering the original argument vector keeps its first element and then, in order, exactly the tokens that were left unprocessed by the program and all its sub-commands, and sets the count accordingly; the pointers kept are ones of the original vector and nothing beyond the count is needed. Unprocessed texts that never stood on the command line as whole tokens are skipped without losing the others.",
["inputs","configurations"],"for every command line with duplicated, ignored and remaining tokens, for every parser setting",
"Duplicate texts and early stops make the matching ambiguous at many positions; tests filter two lines.",
[S+"ParsedArguments.cpp"],[("filter",S+"ParsedArguments.cpp:filter_parsed_arguments")],observe="argc/argv after filter_parsed_arguments")
p("P21","Auto-exit uses the configured codes and the right streams",
"With auto-exit on, a help or exit-type option ends the program with the normal exit code and any command-line error with the error exit code, after all callbacks and output due before it and without processing anything later; with auto-exit off the program is never ended and errors raised through the results or callback interface become exceptions. Help and version output goes to the custom stream or else standard output, error messages to the custom stream or else standard error, and nothing is written otherwise.",
["configurations","inputs"],"for every exit-code pair, stream choice and auto-exit setting, and every way of ending a parse",
"Tests run with auto-exit off because exiting would end the test program.",
[AI,HT,PI],[("exit points",AI+":error/process_option; "+PI+":error"),("stream choice",HT+":get_output_stream")],observe="exit code and captured streams")
p("P22","The status of every result in the command tree tells how the parse ended",
"After a parse without auto-exit the program's result and that of every sub-command still open carry the overall outcome (success, stop or failure), sub-commands completed earlier on a multi-command line carry success, and none is left unset. The stop option is available in every result with the stop status, is the one that was met, and asking for it otherwise is an exception.",
["inputs","configurations"],"for every command tree and every way and place of ending a parse",
"Status must be propagated to every open and closed level for each ending; tests read it at the top level only.",
[AI,PI],[("success",AI+":check_argument_and_option_counts"),("failure",AI+":error"),("stop",PI+":set_breaking_option")],observe="ParsedArguments::result_code/stop_option")
p("P23","Every command-line error is reported once and names its culprit",
"A failed parse writes exactly one message, prefixed with the full name of the program and sub-commands down to the one concerned, that names what is wrong: the unknown option or command, the option lacking its value, the surplus value, the missing mandatory option with its flags, or the counts expected and received. Brief usage for that command follows it, custom error usage replaces it if given, and errors raised by client code carry its text and the given argument's name or option's flags.",
["inputs","configurations"],"for every kind of error at every nesting depth and position",
"The message is built from state (current command, cursor, counters) that differs on each path; tests assert few messages.",
[AI,HT],[("messages",AI+":error"),("rendering",HT+":write_error_message"),("full names",CD+":finish_initialization")],observe="error stream")
p("P24","Numeric conversions are exact or fail",
"Reading a value as an integer, unsigned integer, long or floating-point number gives the number its text denotes in the requested base exactly when the whole text is a valid number that fits the type, and is otherwise an error reported through the parser's error mechanism, never a truncated, wrapped, saturated or partially read result. Every representable value round-trips through its text, and a boolean is false for an empty text, \"0\" and \"false\" and true for any other.",
["inputs"],"for every short string over the number alphabet, all values around every type limit, and every base",
"Limits times bases times trailing characters form a space of boundary cases; tests list a few of them.",
[S+"ParseValue.cpp",S+"ParseValue.hpp",S+"ArgumentValue.cpp"],[("parsing",S+"ParseValue.cpp:parse_integer_impl"),("error path",S+"ArgumentValue.cpp:get_or_throw")],observe="ArgumentValue::as_*")
p("P25","Value access distinguishes absent, single and multiple values",
"Reading an absent value gives the supplied default (or the type's zero or empty value), reading a single value gives it, and reading several as one is an exception; presence tests, sizes, iteration, indexing and list conversions all agree with the stored list, an index past the end of a non-empty list is a reported error and one into an empty list gives an absent value. Asking for a name that belongs to no argument or option is an exception in every reading and writing function.",
["inputs","histories"],"for every number of stored values, every index, every accessor and every name",
"The agreement of about thirty accessors over all list sizes and positions is a cross product tests do not form.",
[S+"ArgumentValue.cpp",S+"ArgumentValues.cpp",S+"ParsedArguments.cpp",S+"ArgumentValueIterator.cpp"],[("accessors",S+"ArgumentValues.cpp"),("lookup",PI+":get_value/get_value_id")],observe="ArgumentValue(s) public API")
p("P26","Splitting a value is exact and bounded by the requested part counts",
"Splitting on a separator yields parts that, joined with the separator, give back the original text, with no part containing the separator except a last part left whole by the maximum count; the number of parts is at most the maximum. Fewer parts than the minimum is a reported error, and each part keeps the argument it came from.",
["inputs"],"for every short string over letters and separators, every separator and every minimum and maximum",
"Boundary positions of separators against part limits are a combinatorial family; tests split one string.",
[S+"ArgumentValue.cpp",S+"StringUtilities.cpp"],[("splitting",S+"StringUtilities.cpp:split_string")],observe="ArgumentValue::split/split_n")
p("P27","Help lists exactly the visible parts of a command, where visibility says",
"The help text of a command shows in its usage every argument, option and the sub-command placeholder whose visibility includes usage, and in its lists every argument, option and sub-command whose visibility includes text, each once with all its flags, argument name and help text, and nothing hidden, inherited or belonging to another command. This holds for the help option, the help-writing functions and help of nested sub-commands alike, including after definitions were copied.",
["configurations"],"for every small command tree and every assignment of visibilities, sections and help texts",
"Visibility combinations per item and per output route multiply; tests render a few fixed parsers.",
[HT,CD],[("lists",HT+":write_arguments/list_arguments"),("usage",HT+":write_usage")],observe="help stream")
p("P28","Help sections, titles and custom texts appear as configured and in order",
"Help consists of initial text, usage, about text, the sections and final text in that order; items sharing a section heading are listed together under it in definition order, default headings apply to items without a section, and the automatically assigned current section is the one in force when an item was added. Each text set by the client, as a string or as a function, replaces exactly the part it names, the help text stands in for a missing about text, and an empty replacement removes the part.",
["configurations"],"for every combination of text ids set, unset and empty, and every assignment of items to sections",
"Each text id has its own path and its interactions with the defaults; tests set a few.",
[HT,CD,S+"TextSource.hpp"],[("texts",HT+":get_custom_text"),("sections",HT+":add_help_text")],observe="help stream")
p("P29","Laid-out text keeps its words and respects the line width",
"Laying out any help text keeps all its words in order with no character lost or added other than line breaks, indentation, and hyphens where a word is split; explicit line breaks are kept and no line exceeds the configured width unless the width leaves no room to break. Indentation given by leading spaces and tabs applies to the lines it governs and is undone after them, so a text never shifts the layout of what follows it.",
["inputs","configurations"],"for every short text over words, spaces, tabs, newlines and list markers and every narrow line width",
"The formatter is a character-level state machine with an indentation stack; tests render a few paragraphs.",
[S+"TextFormatter.cpp",S+"TextWriter.cpp"],[("formatter state",S+"TextFormatter.cpp"),("line buffer",S+"TextWriter.cpp")],state="indentation stack, current line",observe="help stream")
p("P30","Words are split only where the rules allow and never lose characters",
"A word that must be broken is broken at a point given by the client's splitting rules if one fits, otherwise after one of its own hyphens or at a place that keeps whole UTF-8 characters together, and the pieces with any added hyphen removed give the word back. Pieces of a rule shorter than two letters are not taken, the longest fitting piece is, a rule applies to its word whatever the case of ASCII letters and the punctuation after it, and rules for other words have no effect.",
["inputs","configurations"],"for every short word, every rule for it and every available width",
"Split position depends on width, rule and UTF-8 boundaries together; tests try a few words.",
[S+"WordSplitter.cpp",S+"TextWriter.cpp"],[("split",S+"WordSplitter.cpp:split")],observe="help stream")
p("P31","Invalid definitions are rejected and valid ones accepted",
"Defining or parsing with an invalid definition reports the library's exception: a flag malformed for the option style, duplicate or conflicting flags within a command, an option without flags, an unnamed argument or command, both arguments and sub-commands in one command by any route, both argument and constant, and operations with impossible settings. Every other definition is accepted, a rejected addition leaves what was defined before as it was, and the automatically added help and version options never collide with or displace defined ones.",
["configurations"],"for every flag string over a small alphabet in every style and every combination of option settings",
"Validity is a predicate over the cross product of settings; tests list some invalid examples.",
[S+"OptionData.cpp",CD,S+"ParserData.cpp"],[("option validation",S+"OptionData.cpp:validate_and_update"),("conflicts",CD+":build_option_index"),("exclusivity",CD+":add/copy_from")],observe="exceptions of add/parse/copy_from")
p("P32","No input makes the library crash, hang or exhibit undefined behaviour",
"For any definitions accepted by the library and any command line of arbitrary bytes, of any token length and count, parsing, iterating, reading values, writing help and errors and printing results terminate, stay within bounds, release what they allocate, and fail only with the library's exception or the configured exit.",
["inputs","configurations"],"for every short byte-level command line under every parser setting, and every short help text at every width",
"Memory errors show only for particular byte patterns and only under instrumentation; the tests run uninstrumented on tidy input.",
["src/Argos"],[("tokenisers",SO+"; "+OI),("text layout",S+"TextFormatter.cpp"),("values",PI)],observe="sanitizer reports, exceptions, termination")
p("P33","The single-file distribution behaves exactly like the library",
"The amalgamated header and source in the distribution define the same interface and, for every definition and command line, give the same results, messages, help text and exit codes as the library built from its separate sources.",
["inputs","configurations"],"for every parser setting and command line in the explored families",
"No test compiles the single-file distribution at all.",
["single_src/Argos/Argos.cpp","single_src/Argos/Argos.hpp"],[("amalgamation","tools/make_single_src")],observe="both builds' public API")
p("P34","Definition views report exactly what was defined",
"The views of arguments, options and sub-commands obtained from results, callbacks, iteration and values report exactly the properties given at definition (names, flags, help, section, alias, counts, operation, constant, initial value, type, visibility, custom id, nesting), list every definition once in definition order, and assign distinct internal ids within a command. The view attached to a stored value is that of the argument or option it came from.",
["configurations"],"for every combination of definition properties at every nesting level",
"The cross product of properties and the ways of reaching a view is not covered by a few assertions.",
[S+"ArgumentView.cpp",S+"OptionView.cpp",S+"CommandView.cpp",PI],[("views",S+"OptionView.cpp; "+S+"CommandView.cpp"),("value source",PI+":get_argument_view(s)")],observe="*View public API")
p("P35","Printing a result lists every value of every command exactly once",
"The debug listing of a result shows, for the program and each sub-command result in order, each distinct value exactly once with the names of all arguments and options that share it and all its stored values in order, and the unprocessed arguments in order, and nothing else.",
["inputs","configurations"],"for every command tree and command line in the explored families",
"The grouping depends on value sharing and nesting; the test prints one parser.",
[S+"ParsedArguments.cpp"],[("print",S+"ParsedArguments.cpp:print")],observe="print(ParsedArguments, stream)")
p("P36","Copies of definitions are complete and independent",
"A copy of an argument, option or command, and every definition taken over by copying a command's contents, behaves in parsing, help and views exactly like the original, with nested definitions and texts included; changing or consuming either one later never affects the other. Copying contents adds to what is already there in order, and is an exception exactly when a text would be overwritten or arguments and sub-commands would be mixed.",
["histories","configurations"],"for every sequence of copy, assign, move, modify and consume operations on definitions with every property set",
"A forgotten field shows only when that field is set and then copied by that particular route; tests copy few fields.",
[CD,S+"Command.cpp",S+"Option.cpp",S+"Argument.cpp"],[("copying",CD+":copy constructor/assignment/copy_from")],observe="views, parse results and help of copies")
p("P37","Line width follows the console only when it is not set",
"When no line width is configured the text is laid out to the width the console reports, with a fallback when there is no console and a lower bound for absurdly small ones; a configured width is used as it is, and the console has no influence then. No answer of the console makes output fail.",
["fault_sequences","configurations"],"for every answer (every width and every failure) of the terminal query and every configured width",
"The terminal's answer is outside a test's control; the tests always set the width.",
[S+"ConsoleWidth.cpp",S+"TextWriter.cpp",HT],[("query",S+"ConsoleWidth.cpp:get_console_width")],observe="help stream under a controlled terminal query")
p("P38","Failures of client code, memory and streams pass through cleanly",
"An exception thrown by a callback or a text function reaches the caller of the library unchanged and at once, with no later callback run and nothing written because of it; running out of memory at any point of defining, parsing, iterating, helping, reading or filtering is reported as std::bad_alloc or has no effect; a stream that stops accepting output changes neither results nor exit codes. Afterwards everything the failed operation allocated is released, and the parser (through its repeatable operations), earlier results and other iterations do what they would have done without it.",
["fault_sequences","histories"],"for every call of a client function, every allocation and every character written, of every explored operation, failing alone or from there on",
"No test makes a callback throw, an allocation fail or a stream refuse output.",
[AI,S+"ArgumentParser.cpp",HT,PI],[("callback calls",AI+":process_option/process_argument"),("text functions",S+"TextSource.hpp:get_text"),("copy for repeatable use",S+"ArgumentParser.cpp:make_copy")],observe="exceptions, allocation balance, later operations")
p("P39","Settings hold whatever the order they were given in and the entry point used",
"Every setting of a parser is reported by its getter exactly as last given, starts at its documented default, and is changed by nothing but its own setter; the option style can be changed until an option is added and is a reported error after that. A parse or help text is the same whatever the order in which settings and definitions were given and whether an earlier value was overwritten, and whether the line is given as argc and argv or as a list, to parse or to an iterator, repeatably or for one use. The program's name in results, callbacks, messages and help is the one given last, reduced to its file name where that was asked for, or the file name of argv[0] when none was given.",
["configurations","histories"],"for every sequence of setters, every order of settings around the definitions, every entry point and every way of naming the program",
"The tests give settings in one order and use one or two entry points each.",
[S+"ArgumentParser.cpp",S+"ParserData.cpp",S+"ParserData.hpp"],[("settings",S+"ParserData.hpp:ParserSettings"),("program name",S+"ArgumentParser.cpp:parse(int, char**)"),("finishing",S+"ParserData.cpp:finish_initialization")],observe="getters, "+R)
p("P40","Repeatable operations may overlap, nested or on several threads",
"Any number of repeatable (const) operations of one parser, and readings of one result or copies of one definition, may run at the same time, nested in the callbacks and text functions of each other or on several threads, as long as the client's own functions and streams allow it: each gives exactly what it gives alone. Parsers that have nothing in common never influence each other.",
["schedules"],"for every pair and nesting of repeatable operations, and every schedule of two threads",
"Overlap needs a particular nesting or schedule; the tests run one operation at a time.",
[S+"ArgumentParser.cpp",AI,HT],[("copy for repeatable use",S+"ArgumentParser.cpp:make_copy"),("no shared mutable state","src/Argos")],observe="results and output of overlapping operations, data races")
for x in P: print(json.dumps(x))
