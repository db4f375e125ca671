"""Per property: kind of deciding method, oracle and what it reaches that tests cannot."""
MODEL, DIRECT, META, FAULT, SCHED = "model", "direct", "metamorphic", "fault", "schedule"
N = {
"P01": (MODEL, "The model classifies each token from the style's rules alone (prefix, length, '=', cluster letter) and says which option owns it and where its value is; every line over an alphabet of prefixes, flags, '=' and near misses is run through both.",
        "tests sample a few spellings per style; clashes between a value and a flag, a lone prefix and a joined '=' only show on particular combinations"),
"P02": (MODEL, "The model replays the occurrences of each option over a table of values (assign/append/clear/none, constants, initial values) for every sequence of operations of several linked or separate options, at root and in sub-commands.",
        "a history property: wrong only after particular sequences (clear after initial value, append after assign of a linked option)"),
"P03": (MODEL, "A multiset and order accounting of every token of the line against flags, values, positionals, commands and the unprocessed list of the whole result tree, on top of the model comparison; byte-exactness over awkward strings (empty, spaces, high bytes, very long).",
        "conservation must hold for every line"),
"P04": (MODEL, "The model distributes values by an independent greedy rule (take as many as leave the later ones their minimum); all tuples of argument counts up to three arguments x every number of values x every interleaving with options.",
        "the counter of the library precomputes the distribution from the tokens ahead; only some combinations of optional arguments, options with values and ignored tokens expose a miscount"),
"P05": (META, "Every placement of an option (with its value) among the positionals, and every relative order of independent options, is run on the real code and compared with one canonical placement.",
        "relational: quantifies over pairs of lines"),
"P06": (MODEL, "Success is predicted from the set of what is required, at every level of command nesting, for every line over required/optional options, arguments and commands, with and without a help, stop, exit or last-argument option.",
        "requirements of parents and completed siblings are easily forgotten; needs multi-level lines"),
"P07": (META, "All spellings of each abstract sequence of option occurrences (clusters, joined, separate, '=') are generated and compared pairwise with the canonical one, callbacks included.",
        "relational"),
"P08": (MODEL, "Every kind of ending option at every position of every line, in clusters, in sub-commands and multi-commands, against the model's description of what is processed, unprocessed and reported.",
        "position-dependent; the rest of a cluster and the control going back to a parent need rare combinations"),
"P09": (MODEL, "Every set of up to three flags over a tiny alphabet x every token: the model searches linearly for completions, the library by binary search in a sorted index.",
        "off-by-one errors of the index need particular flag sets"),
"P10": (DIRECT, "Every pair of bytes as flags and command names, every token differing in one byte or case, and all flag sets over letters and the punctuation around them: matched exactly when an explicit ASCII fold says so.",
        "a comparison that is no strict weak order loses flags only for particular sets"),
"P11": (MODEL, "Trees of commands up to depth three with clashing names; every line over commands, options, values and near misses.",
        "scope leaks show only when the same name means different things at different levels"),
"P12": (MODEL, "The model's stack of commands for multi-command lines; in addition every sequence of complete invocations is compared with the invocations parsed alone (composition).",
        "sibling names as values, repeated commands, nested multi-commands: history dependent"),
"P13": (MODEL, "All alias graphs over up to four definitions x every declaration order x assignments: groups predicted by a transitive closure; order independence compared directly.",
        "transitive linking fails only for some orders"),
"P14": (MODEL, "Recording callbacks on every definition with every action of the builder; each event carries a snapshot of all values visible at that moment, compared with the model's.",
        "effects of callbacks on the value being delivered depend on history; ASan build catches dangling views"),
"P15": (MODEL, "Every insertion (content, position, nesting) by a callback on every line; compared with the model and, where the property says so, with the expanded line run on the real code.",
        "insertions into clusters, at the end, nested, with counted arguments: many combinations"),
"P16": (MODEL, "Lock-step: iterator events and a snapshot of the complete result after each step vs. the model's state after each transition and vs. a one-go parse.",
        "intermediate states are not observable in end-to-end tests"),
"P17": (DIRECT, "All interleavings of the steps of several iterations, parses and help calls on one parser (and every order of destruction), each compared with a fresh parser's result; ASan build.",
        "schedule property"),
"P18": (DIRECT, "All operation sequences up to a depth on a pool of objects, against an abstract state machine (empty / holds definition X / consumed) per object.",
        "sequence property; the interesting sequences are moves followed by uses"),
"P19": (MODEL, "Every line with undefined options and surplus positionals under each setting combination; the model says what is passed through; and removing the passed-through tokens must not change the rest.",
        "look-ahead across ignored tokens changes counts"),
"P20": (DIRECT, "filter on every argument vector of every line, with guard pointers beyond the count; expected: the sub-sequence of the unprocessed tokens, computed from the model's provenance of tokens.",
        "duplicated tokens and texts that never stood on the line"),
"P21": (MODEL, "The process exit is replaced by an exception carrying the code; every ending under every stream configuration, auto-exit setting and code; the three sinks are compared byte for byte.",
        "exit paths cannot be unit-tested in process"),
"P22": (MODEL, "Every ending at every depth and position of multi-command lines; the result code and stop option of every node of the tree against the model.",
        "tree-wide statement"),
"P23": (MODEL, "The message for every error of every failing line, from the model's reason for failure (prefix, culprit, counts, usage of which command).",
        "names the culprit must hold for each reason at each depth"),
"P24": (DIRECT, "Every text over an alphabet of digits, signs, prefixes, exponents and blanks up to a length, plus the neighbourhoods of all type limits, against a digit-by-digit parser over 128-bit integers and std::from_chars; all bases.",
        "limits, partial reads and wraps are values, not samples"),
"P25": (DIRECT, "Every stored list up to a length x every accessor, index and default, against the list itself; every unknown name in every function.",
        "agreement of about thirty accessors"),
"P26": (DIRECT, "Every text over an alphabet with separators x separator x minimum x maximum, against a naive splitter.",
        "bounds combinations"),
"P27": (DIRECT, "Every assignment of visibilities to a definition tree x route to help; usage and lists are parsed back from the output into sets of items and compared with what was defined.",
        "products of visibility, kind, level and route"),
"P28": (DIRECT, "The output is matched against a document composed by an independent composer from the chosen texts (absent, empty, string, function) and section assignments.",
        "combinations of texts and sections"),
"P29": (DIRECT, "Every text over an alphabet of words, blanks, tabs, line feeds and list markers up to a length x width; an independent layout model gives the exact lines where the rules determine them, and conservation and width are judged everywhere.",
        "layout state (indentation) leaks from one piece to the next only for particular sequences"),
"P30": (DIRECT, "Every word over an alphabet (letters, hyphens, multi-byte characters, punctuation) x rules x room; the choice of the splitting point against an independent search.",
        "boundary conditions of lengths"),
"P31": (DIRECT, "Every definition over small alphabets of flags, names and settings against a validity predicate written from the documentation; rejected additions are followed by a comparison of everything observable.",
        "acceptance is a yes/no question over all definitions"),
"P32": (DIRECT, "All byte strings up to a length as tokens, all lengths around buffer sizes, all definitions of the zoo, on the ASan/UBSan build with leak counting, a watchdog and a memory limit; only the library's exception may escape.",
        "undefined behaviour is invisible to tests"),
"P33": (META, "The single header and the library are compiled into one process (different namespaces); the families of the other checks are run on both and every observation compared; signatures of the public interface are compared at compile time.",
        "relational between two code bases"),
"P34": (DIRECT, "Every combination of properties of a definition; each view reached by each route (results, callbacks, iteration, values) is compared field by field with the definition.",
        "products of properties and routes"),
"P35": (DIRECT, "The listing is parsed back for every line of the zoo and compared with the stored values read through the interface.",
        "completeness over all results"),
"P36": (META, "Every definition x every way of copying it x a change or use of either side; the copy must behave (parse, help, views) as the original did before.",
        "independence needs sequences of copy, change and use"),
"P37": (DIRECT, "The ioctl is replaced at link time; every answer of the console (including failures and absurd sizes) x configured width x route to output; compared with the output at the width that should apply.",
        "the environment's answers cannot be produced by tests"),
"P38": (FAULT, "For each scenario the number of allocations, client calls and stream writes is counted in a fault-free run, then the run is repeated once for every single fault point (and for faults that last from there on). Judged: the exception that comes out, no later callback, no output, no leak, and the behaviour of parser, results and iterators afterwards against the fault-free observation.",
        "all failure points of each history, as crash-point enumeration"),
"P39": (MODEL, "A settings record as model; all orders of setters and additions, all overwrites, all entry points; getters against the record, results, messages and help against those of a canonical order.",
        "order independence quantifies over permutations"),
"P40": (SCHED, "Operations on one parser are switched at the calls of the client's functions by a controlled scheduler (every schedule up to a number of preemptions, and every nesting), each compared with what it gives alone; the stretches between two client calls take no lock, so their interleavings are equivalent if they have no conflicting accesses, which every pair of operations is checked for under ThreadSanitizer.",
        "schedules"),
}
