# encoding: utf-8
"""The single source of properties.jsonl and MANIFEST.json: python tools/spec.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

M = "model_checking"
X = "exploration"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism, level, technique, note
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, level, technique, note):
    P.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mechanism=mechanism, level=level, technique=technique, note=note,
    ))


REF = "explicit-state model checking: a reference model is explored over every grammar and input within bounds and every model trace is replayed on the library"
EXH = "bounded-exhaustive exploration of the real code"
BOUND = "Holds for everything within the stated bounds (see the evidence for what was walked); beyond them it rests on the small-scope hypothesis. "

prop(
    "C01", "A grammar accepts exactly what its parsing-expression reading accepts",
    "For any grammar made of terminals, sequence (+), first match (|), longest match (^), repetition with any bounds, option, look-ahead, "
    "negative look-ahead, grouping and recursion, and any text: parse() succeeds exactly when the parsing-expression reading (ordered choice, "
    "greedy repetition that never gives back, whitespace skipped between the parts) matches from the first non-blank character, and the match ends "
    "at the same place. parse_all=True additionally requires only that nothing but whitespace and line ends follows. "
    "The operator and the constructor spelling of a grammar mean the same.",
    ["programs", "inputs"], "every grammar up to a size bound x every text up to a length bound",
    "the tests run a few dozen hand-written grammars on a handful of texts; errors in composition need a particular nesting and a particular text",
    ["mo_parsing/core.py", "mo_parsing/expressions.py", "mo_parsing/enhancement.py", "mo_parsing/tokens.py"],
    [("parse_impl of And, MatchFirst, Or, Many, Optional, NotAny, LookAhead, Forward", "mo_parsing/expressions.py, mo_parsing/enhancement.py"),
     ("streamline, which rewrites a grammar before it is used", "mo_parsing/expressions.py"),
     ("Fast, which chooses alternatives by their first characters", "mo_parsing/expressions.py")],
    M, REF, BOUND,
)
prop(
    "C02", "Parse results hold exactly the matched tokens, nested as grouped",
    "On success the results, iterated, are the tokens of the matched derivation in order: the text of each terminal, one nested result per Group, "
    "nothing for suppressed parts and look-ahead, one joined string per Combine, the default of an absent Optional. "
    "as_list(), iteration, length and integer indexing all describe this same sequence.",
    ["programs", "inputs"], "every grammar up to a size bound x every text up to a length bound",
    "tests compare the results of particular grammars; flattening and nesting errors appear only for particular nestings of the combinators",
    ["mo_parsing/results.py", "mo_parsing/enhancement.py", "mo_parsing/expressions.py"],
    [("ParseResults.__iter__, as_list, __getitem__, length", "mo_parsing/results.py"), ("Group, Suppress, Combine, Optional", "mo_parsing/enhancement.py")],
    M, REF, BOUND,
)
prop(
    "C03", "Results names give the values matched under them, and only those",
    "results[name] is the value of the single visible occurrence of that name, or the sequence of the values of all visible occurrences in text order, "
    "or an empty result when there are none. An occurrence is visible unless it lies inside a Group or inside an expression with another name; "
    "look-ahead and suppressed groups follow the same rule; `in`, keys(), items() and get() agree with indexing.",
    ["programs", "inputs"], "every placement of two names in every grammar up to a size bound x every text up to a length bound",
    "tests name one or two parts of one grammar; visibility depends on the whole path from the root to the name, and on streamlining",
    ["mo_parsing/results.py", "mo_parsing/core.py", "mo_parsing/enhancement.py"],
    [("ParseResults._get_item_by_name, items, __contains__", "mo_parsing/results.py"), ("set_token_name, which copies the expression", "mo_parsing/core.py")],
    M, REF, BOUND,
)
prop(
    "C04", "A choice behaves as its alternatives tried one by one",
    "For any list of alternatives, first match (|) answers as the first alternative that matches on its own at that position, and longest match (^) as the "
    "alternative with the longest match, the earliest of these on a tie: same success, end, tokens, names and actions. This does not depend on how many alternatives there are, "
    "what they start with, in which order they share prefixes, whether they are recursive, named or may match nothing.",
    ["programs", "inputs"], "every list of up to k alternatives from a pool of expressions x every text up to a length bound",
    "the dispatch by first characters is only used for some lists and only wrong for some combinations of prefixes; tests contain few such lists",
    ["mo_parsing/expressions.py", "mo_parsing/tokens.py", "mo_parsing/enhancement.py"],
    [("faster() and Fast", "mo_parsing/expressions.py"), ("expecting() and min_length() of every expression", "mo_parsing/tokens.py, mo_parsing/enhancement.py"), ("ParseExpression.streamline merging nested choices", "mo_parsing/expressions.py")],
    M, "explicit-state: every list of alternatives over a pool x every text, against the alternatives run alone (a choice automaton replayed on the library)", BOUND,
)
prop(
    "C05", "Expressions are values: deriving from one does not change it",
    "Naming, adding parse actions or conditions, suppressing, grouping, combining with operators, repeating, negating, clearing actions, finalizing and parsing "
    "give a new expression (or parser) and leave the answers of every expression made earlier as they were. The derived expression answers as it would when the operand had been freshly made.",
    ["histories", "programs"], "every sequence of derivations up to a depth, from every base expression, with every earlier expression observed again afterwards",
    "tests build one grammar and use it; sharing one expression between several derived ones in all orders is not tried",
    ["mo_parsing/core.py", "mo_parsing/expressions.py", "mo_parsing/enhancement.py", "mo_parsing/tokens.py"],
    [("copy() of every class", "mo_parsing/core.py"), ("streamline returning copies", "mo_parsing/expressions.py"), ("parser_config replaced, never edited", "mo_parsing/core.py")],
    X, EXH + ": all operation sequences up to a depth over expressions", BOUND,
)
prop(
    "C06", "Parsing is a function of grammar and text, whatever happened before",
    "The answer of parse, scan_string, search_string, transform_string and split for a text is the same in a fresh interpreter and after any history of other parses with the same or other "
    "parsers: successful, failing, of other texts, ended by an exception raised in a parse action, nested inside a parse action, or lazily consumed and abandoned. "
    "No call leaves the whitespace context or any other setting different from what it was.",
    ["histories"], "every history of operations up to a length over a set of parsers and texts, each followed by every probe",
    "tests run in a fixed order and look at one result each; leaks between calls need a particular pair of calls",
    ["mo_parsing/core.py", "mo_parsing/whitespaces.py", "mo_parsing/regex.py", "mo_parsing/helpers.py"],
    [("entrypoint and the reset actions", "mo_parsing/core.py"), ("Whitespace.skip cache, keyed by text", "mo_parsing/whitespaces.py")],
    X, EXH + ": all operation histories up to a length", BOUND,
)
prop(
    "C07", "Whitespace and ignored text are those in force where the grammar was made",
    "Between the parts of a sequence or repetition, exactly the whitespace characters and ignored expressions of the context in which that part of the grammar was made are skipped, "
    "before and between parts and never inside a terminal; no others are, and a context without whitespace skips nothing. "
    "Leaving a context restores the previous one, in any nesting, also when it is left by an exception.",
    ["programs", "inputs", "histories"], "every small grammar x every assignment of contexts to its sub-grammars x every text up to a length; every sequence of entering and leaving contexts",
    "tests use one context at a time with one text; mixing contexts multiplies the cases",
    ["mo_parsing/whitespaces.py", "mo_parsing/expressions.py", "mo_parsing/enhancement.py", "mo_parsing/core.py"],
    [("Whitespace.skip, __enter__, __exit__, add_ignore", "mo_parsing/whitespaces.py"), ("whitespace kept in parser_config at construction", "mo_parsing/expressions.py, mo_parsing/enhancement.py")],
    M, REF, BOUND,
)
prop(
    "C08", "infix_notation groups operators by precedence and associativity",
    "For any operator table, infix_notation gives for every well-formed expression the tree in which earlier rows of the table bind tighter and operators of one row group to their declared side; "
    "parentheses override this, and the leaves read left to right are the operands and unsuppressed operators of the text. "
    "Ill-formed text is matched only up to its longest well-formed beginning.",
    ["programs", "inputs"], "every operator table up to a number of rows (prefix, postfix, binary and ternary, left and right, suppressed or not) x every token sequence up to a length",
    "tests try the usual arithmetic and boolean tables on a few expressions",
    ["mo_parsing/infix.py"], [("make_tree", "mo_parsing/infix.py")],
    M, "explicit-state: a reference precedence reducer over every table and token string within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C09", "Regex matches exactly as the regular expression does",
    "Regex(p) matches at a position exactly where Python's re (with DOTALL) matches there, giving the same text; capture_groups() gives every participating group under its number and its name with the same text, "
    "and sub/replace_with give what the replacement template says. Regex inside a larger grammar or choice behaves the same as alone.",
    ["programs", "inputs"], "every pattern up to a size bound from the supported syntax x every text up to a length bound",
    "tests try some twenty patterns",
    ["mo_parsing/regex.py", "mo_parsing/utils.py"], [("the regex grammar and Regex class", "mo_parsing/regex.py")],
    M, "explicit-state: every pattern within bounds, Python's re as the model, every text replayed on the library, alone and inside choices", BOUND,
)
prop(
    "C10", "The regular-expression form of a grammar means the same as the grammar",
    "For every expression that offers a regular expression of itself, and every text and position, that regular expression matches the span the expression itself matches, and does not match where the expression does not, "
    "wherever it makes no difference that a regular expression gives back what it took and a grammar does not. "
    "stop_on, negative look-ahead, quoted strings and ignored expressions, which are built on it, therefore decide as the expression would.",
    ["programs", "inputs"], "every expression up to a size bound x every text up to a length bound x every position",
    "tests look at a few generated patterns",
    ["mo_parsing/enhancement.py", "mo_parsing/expressions.py", "mo_parsing/tokens.py", "mo_parsing/utils.py"],
    [("__regex__ of every class, regex_iso, regex_range, regex_caseless", "mo_parsing/utils.py")],
    M, "explicit-state: every expression within bounds, its regex run by Python's re and compared with the reference PEG and the library at every position", BOUND,
)
prop(
    "C11", "Reported positions are the real ones",
    "The start and end of results, of every nested result, of located_expr, of scan_string and of parse-action arguments delimit exactly the matched text: the tokens of a terminal are text[start:end], children lie inside their parent and in order. "
    "line, lineno and col of every position agree with counting lines and columns in the text.",
    ["programs", "inputs"], "every grammar up to a size bound x every text up to a length bound; every position of every text for line and column",
    "tests check a few positions",
    ["mo_parsing/results.py", "mo_parsing/utils.py", "mo_parsing/expressions.py", "mo_parsing/enhancement.py", "mo_parsing/helpers.py"],
    [("start and end kept by every parse_impl", "mo_parsing/enhancement.py, mo_parsing/expressions.py"), ("col, line, lineno", "mo_parsing/utils.py")],
    M, REF, BOUND,
)
prop(
    "C12", "Scan, search, split and transform agree with parsing at each position",
    "scan_string reports, from left to right, the non-overlapping matches found by trying each next position (all positions with overlap=True), up to max_matches, each once and each equal to a parse at that position. "
    "search_string collects the same results; split returns the text between them and with the separators rebuilds the text; transform_string replaces exactly the matched spans with their tokens and keeps every other character.",
    ["programs", "inputs"], "every grammar up to a size bound x every text up to a length bound x every limit",
    "tests scan a few texts",
    ["mo_parsing/core.py"], [("_scan_string, _search_string, _transformString, _split", "mo_parsing/core.py")],
    M, "explicit-state: the scanning automaton over the reference PEG, for every grammar and text within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C13", "A text that does not match raises ParseException with a position inside it",
    "Parsing any text either returns results or raises ParseException; no other exception escapes for any text that is not nested deeper than the interpreter's stack. The reported position is the furthest place where a part of the grammar was tried and failed, so it lies within the text and never before the start; "
    "line, lineno, column and the quoted text of the message agree with the position, and the exception can be printed, searched and inspected.",
    ["programs", "inputs"], "every grammar up to a size bound x every text up to a length bound that is not matched",
    "tests look at the message of a few failures",
    ["mo_parsing/exceptions.py", "mo_parsing/core.py", "mo_parsing/enhancement.py", "mo_parsing/expressions.py"], [("ParseException.best_cause, loc, message", "mo_parsing/exceptions.py"), ("failures kept with results", "mo_parsing/enhancement.py, mo_parsing/expressions.py")],
    M, REF, BOUND,
)
prop(
    "C14", "Parse actions and conditions see and shape exactly their own match",
    "A parse action is called with the tokens, start position and text of the match it is attached to, in order of attachment, only when that expression matched; what it returns replaces the tokens and None keeps them. "
    "Any callable can be an action: functions, methods, classes, callable objects and built-in functions are given as many of tokens, start and text as they take. "
    "A condition that is false, or an action that raises ParseException, makes that expression not match, with the same effect on alternatives, options and repetitions as a mismatch of the text. "
        "Inside the target of SkipTo, which is only looked for, actions and conditions are called only if they were attached with callDuringTry.",
    ["programs", "inputs"], "every placement of actions and conditions in every grammar up to a size bound x every text up to a length",
    "tests attach actions to a few grammars",
    ["mo_parsing/core.py", "mo_parsing/utils.py", "mo_parsing/enhancement.py", "mo_parsing/expressions.py"],
    [("ParserElement._parse", "mo_parsing/core.py"), ("wrap_parse_action", "mo_parsing/utils.py")],
    M, REF, BOUND,
)
prop(
    "C15", "Threads may share parsers",
    "When several threads use the same or different parsers at the same time, each call gives what it would give alone, whatever the interleaving, and none blocks for ever. "
    "This includes finalizing a grammar, lazily consumed scans, parse actions that parse, and grammars that share expressions. It does not include writing expressions, which reads the whitespace context all threads share.",
    ["schedules"], "every interleaving of two or three threads with a bounded number of preemptions at bytecode lines",
    "no test uses threads",
    ["mo_parsing/core.py", "mo_parsing/whitespaces.py"], [("locker and entrypoint", "mo_parsing/core.py"), ("Whitespace.skip cache", "mo_parsing/whitespaces.py")],
    X, "stateless model checking of the real code under a controlled scheduler, preemption-bounded", BOUND,
)
prop(
    "C16", "Parse results are a consistent container under reading and editing",
    "For any results: indexing, slicing, iteration, length, reversed order, truth, keys, items, values, get, membership, equality and copies describe one and the same content. "
    "Assigning a name replaces in place the first of the tokens of that name and removes the others; a name that was not there adds nothing to the list; deleting a name removes its tokens. "
    "The sum of two results holds what both hold. Nothing else that is read changes, copies keep what they read, and this holds for any sequence of such edits.",
    ["histories", "inputs"], "every sequence of edits up to a length on the results of every small named grammar, with every reading after each",
    "tests edit one result once",
    ["mo_parsing/results.py"], [("ParseResults.__setitem__, __delitem__, items, __eq__", "mo_parsing/results.py")],
    M, "explicit-state: a reference container explored over all edit sequences, every trace replayed on ParseResults", BOUND,
)
prop(
    "C17", "Recursive grammars: left recursion is refused, everything else terminates",
    "Defining a Forward so that it can reach itself without consuming text raises RecursiveGrammarException when it is defined or first prepared, and no grammar that always consumes text first is refused. "
    "Every grammar that is accepted finishes on every text, including repetition of expressions that match nothing.",
    ["programs", "inputs"], "every recursive grammar up to a size bound, with one and two mutually recursive rules x every text up to a length bound",
    "tests contain a few recursive grammars, all well-formed",
    ["mo_parsing/enhancement.py", "mo_parsing/expressions.py"], [("check_recursion, min_length", "mo_parsing/enhancement.py, mo_parsing/expressions.py"), ("Many.parse_impl", "mo_parsing/enhancement.py")],
    M, "explicit-state: reachability without consumption computed by fixpoint for every recursive grammar within bounds and compared with the library; the accepted ones are run on every text", BOUND,
)
prop(
    "C18", "List and structure helpers parse the language they describe",
    "delimited_list, counted_array, nested_expr, dict_of/Dict/OpenDict, one_of, originalTextFor, located_expr, ungroup, token_map, matchPreviousLiteral, matchPreviousExpr and matchOnlyAtCol accept exactly the language they document and return the documented structure, "
    "for any element expression and any text.",
    ["programs", "inputs"], "every helper x every element expression from a pool x every text up to a length bound",
    "tests give each helper a few examples",
    ["mo_parsing/helpers.py", "mo_parsing/infix.py"], [("the helper functions", "mo_parsing/helpers.py, mo_parsing/infix.py")],
    M, "explicit-state: a reference recogniser per helper over every text within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C19", "Quoted strings: exact extent and exact content",
    "QuotedString, for any quote, end quote, escape character, escaped quote and multiline setting, matches exactly from the opening quote to the first closing quote that is not escaped, "
    "never crosses a line unless multiline, and returns the text between the quotes with escapes resolved (or the raw text when not unquoting). "
    "The predefined quoted string expressions match exactly the quoted literals they name.",
    ["configurations", "inputs"], "every setting x every text up to a length bound over quotes, escapes, newline and letters",
    "tests try a few strings for each setting",
    ["mo_parsing/helpers.py"], [("QuotedString", "mo_parsing/helpers.py")],
    M, "explicit-state: a quoting automaton over every setting and text within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C20", "Debugging does not change what is parsed",
    "Under a Debugger or a Profiler, and after leaving one, in any nesting and also when left by an exception, every parse gives the same answer as without, including parse actions, conditions and failures.",
    ["programs", "inputs", "histories"], "every grammar up to a size bound x every text up to a length bound, with and without debugger, and every enter/leave sequence",
    "tests run the debugger once",
    ["mo_parsing/debug.py", "mo_parsing/profile.py"], [("Debugger, which replaces the parsing method", "mo_parsing/debug.py"), ("Profiler", "mo_parsing/profile.py")],
    X, EXH + ": differential, with and without the debugger", BOUND,
)
prop(
    "C21", "MatchAll (&) accepts its members in any order, each as often as allowed",
    "a & b & ... matches exactly the texts that are the members in some order, each once, optional members at most once, unlimited repetitions also in several places; results come in text order, with names and defaults. "
    "The order in which the members are written does not matter when no two members can start alike.",
    ["programs", "inputs"], "every list of up to k members from a pool x every text up to a length bound",
    "tests try a few lists in a few orders",
    ["mo_parsing/expressions.py"], [("MatchAll", "mo_parsing/expressions.py")],
    M, REF, BOUND,
)
prop(
    "C22", "Predefined lexical expressions accept the values they are named for",
    "integer, hex_integer, signed_integer, fraction, mixed_integer, real, sci_real, number, fnumber, identifier, ipv4_address, ipv6_address, mac_address, uuid, iso8601_date and iso8601_datetime, comments and comma separated lists "
    "accept exactly the texts of their documented form and convert them to the value denoted.",
    ["inputs"], "every text up to a length bound over the alphabet of each expression, and every assembly of parts for the long ones",
    "tests try a few valid and invalid examples",
    ["mo_parsing/helpers.py"], [("the predefined expressions", "mo_parsing/helpers.py")],
    M, "explicit-state: a hand-written recogniser per expression over every text within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C23", "Terminals match exactly the texts they are configured for",
    "Literal, CaselessLiteral, Keyword, CaselessKeyword, Word, Char, CharsNotIn, White, AnyChar, CloseMatch, line, string and word boundaries match at a position exactly what their parameters say "
    "(characters, excluded characters, minimum, maximum, exact length, identifier characters, mismatches), for every parameter and text, and return that text.",
    ["configurations", "inputs"], "every parameter setting within bounds x every text up to a length bound x every position",
    "tests use a few settings of each",
    ["mo_parsing/tokens.py", "mo_parsing/utils.py"], [("parse_impl of the tokens", "mo_parsing/tokens.py"), ("regex_range, regex_caseless", "mo_parsing/utils.py")],
    M, REF, BOUND,
)
prop(
    "C24", "indented_block follows the indentation",
    "indented_block groups exactly the consecutive statements that start in the same column, a deeper column opens a nested block where the grammar allows one, and a shallower column closes blocks back to it; other indentation is refused. "
    "Blocks never leak into the next parse.",
    ["inputs", "histories"], "every sequence of line indentations up to a length",
    "tests try a few programs",
    ["mo_parsing/helpers.py"], [("indented_block and its stack", "mo_parsing/helpers.py")],
    M, "explicit-state: an indentation-stack automaton over every sequence of indents within bounds, every trace replayed on the library", BOUND,
)
prop(
    "C25", "SkipTo stops at the first place its target matches",
    "SkipTo(target) consumes exactly up to the first position, outside ignored expressions, where the target matches, returns the text skipped, and with include=True the target's tokens too; it fails when there is no such place or when fail_on matches first. "
    "`...` in a sequence means the same.",
    ["programs", "inputs"], "every target, ignore and fail_on expression from a pool x every text up to a length bound",
    "tests try a few texts",
    ["mo_parsing/enhancement.py", "mo_parsing/core.py"], [("SkipTo.parse_impl", "mo_parsing/enhancement.py"), ("_PendingSkip", "mo_parsing/core.py")],
    M, REF, BOUND,
)
prop(
    "C26", "HTML tag expressions recover the tag and its attributes",
    "makeHTMLTags accepts every opening tag of its name in any letter case with any attributes, quoted or not, and nothing else; the attributes are readable by lower-case name with their values, `empty` tells self-closing tags, "
    "and with_attribute / with_class accept exactly the tags whose attributes have the required values. Entities and comments are recognised and replaced as named.",
    ["inputs"], "every assembly of tag name, attributes, quoting and spacing within bounds",
    "tests try a few tags",
    ["mo_parsing/helpers.py"], [("makeHTMLTags, with_attribute", "mo_parsing/helpers.py")],
    M, "explicit-state: tags generated from a model with their attribute tables, and every near miss, replayed on the library", BOUND,
)
prop(
    "C27", "Look-behind matches exactly what precedes, and consumes nothing",
    "PrecededBy(e) (LookBehind) matches at a position exactly when e matches some text that ends precisely there, beginning no further back than `retreat` when that is given; the white space that a sequence would skip is not skipped before it. "
    "It consumes nothing and adds no tokens, and the names inside e give the values of the nearest such text. It means the same negated, named, repeated, in groups, in choices and when scanning, and whatever whitespace is in force while parsing.",
    ["programs", "inputs"], "every expression up to a size bound looked back for, in every listed context, x every text up to a length bound",
    "tests look back for a few terminals in one text; what is behind depends on the whole context in which the position was reached",
    ["mo_parsing/enhancement.py", "mo_parsing/expressions.py"],
    [("PrecededBy.parse_impl", "mo_parsing/enhancement.py"), ("And.parse_impl, which skips no white space before a look-behind", "mo_parsing/expressions.py")],
    M, REF, BOUND,
)
prop(
    "C28", "Sets of characters mean exactly their characters",
    "A terminal that is given a set of characters (Char, Word and its excluded characters, CharsNotIn, Keyword, WordStart, WordEnd, whitespace) treats each character as itself, whatever it means in a regular expression and whatever its neighbours in the set are. "
    "alphas, nums, alphanums, hexnums, printables and every set of parsing_unicode hold exactly the alphabetic (digit, either, not blank) characters of their ranges and of the sets they inherit from, however and in whatever order they are read or defined, and Word and Char of them accept exactly these code points.",
    ["inputs", "histories"], "every subset of an alphabet x every probing character; every code point for each predefined set; every small hierarchy of sets x every order of defining and reading",
    "tests use ordinary sets of letters; escapes and ranges go wrong for particular combinations, caches for particular orders",
    ["mo_parsing/utils.py", "mo_parsing/tokens.py"],
    [("regex_range, which writes a set as a regular expression", "mo_parsing/utils.py"), ("unicode_set and _lazyclassproperty", "mo_parsing/utils.py"), ("Char, Word, CharsNotIn, Keyword, WordStart, WordEnd", "mo_parsing/tokens.py")],
    X, EXH + ": every subset, code point, hierarchy and history within bounds is tried on the library", BOUND,
)


def main():
    built = {f[1:3] for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("c") and f[1:3].isdigit()}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"],
                "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                    "observe_at": ["public API of mo_parsing"],
                    "hook_needed": None,
                },
            }) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = []
    missing = []
    for p in P:
        if p["id"][1:] in built:
            cmd = "%s run.py %s " % (PY, p["id"])
            checks.append({
                "property": p["id"],
                "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            })
        else:
            missing.append({"property": p["id"], "reason": "its check is not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "true",
            "checks": checks,
            "not_applicable": missing,
            "notes": "Pure Python: every check imports mo_parsing from /repo's working tree; there is nothing to build and there are no hooks in /repo.",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
