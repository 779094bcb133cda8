# encoding: utf-8
"""the answer of a call does not depend on what was called before"""
import contextlib
import io
import itertools
import os
import pickle

from mc.build import attempt, outcome, snapshot, ParseException
from mc.universe import part
import mo_parsing
from mo_parsing import *
from mo_parsing import whitespaces
from mo_parsing.debug import Debugger
from mo_parsing.helpers import (
    counted_array, matchPreviousLiteral, matchPreviousExpr, nested_expr, indented_block, delimited_list,
    dict_of,
)
from mo_parsing.infix import infix_notation, LEFT_ASSOC, RIGHT_ASSOC
from mo_parsing.enhancement import OpenDict
from mo_parsing.utils import alphas, nums

PID = "C06"
LEVEL = "exploration"
RULE = (
    "every history of K operations out of a set (parses that match, fail, or end in an exception; of other texts, of the same text under other whitespace; nested in parse actions; scans begun, continued and abandoned; "
    "building, deriving, finalizing; results edited; debugging) followed by every operation as a probe, each history in a process of its own: the probe and every operation before it answers as it does first thing in a fresh process, "
    "and the whitespace context is what it was. An outcome is non-trivial when the operation gave a result or a failure other than a refusal to run"
)
ASSUMPTIONS = [
    "bounds: the operations listed in the check, and the length of the history",
    "a fresh process is one that has imported the library and built the grammars of the set, and parsed nothing",
    "every operation gets the same text object where it parses the same text",
]

TEXT = "ab ab\nab cd"
PROGRAM = "d f\n  x\n  d g\n    y\n    z\n  w\nv\n"
SUM = "1+2*-3+(4-5)*2"


def environment():
    """grammars shared by every operation"""
    env = {}
    word = Word(alphas)
    number = Word(nums)("n")
    env["words"] = OneOrMore(word("w")).finalize()
    with whitespaces.NO_WHITESPACE:
        env["tight"] = OneOrMore(Word(alphas)("w")).finalize()
    with Whitespace(" ") as spaces:
        env["line"] = OneOrMore(Word(alphas)).finalize()
    with Whitespace() as ignoring:
        ignoring.add_ignore(Literal("cd") | "\n")
        env["ignoring"] = (OneOrMore(Word("ab")) + Optional(Literal("cd"))("cd")).finalize()
    env["loose"] = (word + Optional(number))

    def bad(tokens, loc, string):
        if loc:
            raise ValueError("action")

    env["raising"] = OneOrMore(Word(alphas).add_parse_action(bad)).finalize()

    inner = OneOrMore(Word("abcd")("i")).finalize()

    def nested(tokens, loc, string):
        return [len(list(inner.parse(string))), str(env["tight"].parse(string))] + list(tokens)

    def nested_fails(tokens, loc, string):
        inner.parse("!" + string)

    def nested_scans(tokens, loc, string):
        return [s for _, s, _ in inner.scan_string(string)][:2] + list(tokens)

    env["nested"] = OneOrMore(Word(alphas).add_parse_action(nested)).finalize()
    env["nested_fails"] = (Literal("ab") + Word(alphas).add_parse_action(nested_fails) | OneOrMore(word)).finalize()
    env["nested_scans"] = OneOrMore(Word(alphas).add_parse_action(nested_scans)).finalize()

    expr = Forward()
    atom = Word(nums) | Group("(" + expr + ")")
    expr << atom + ZeroOrMore(Char("+-*") + Optional("-") + atom)
    env["recursive"] = expr.finalize()
    env["infix"] = infix_notation(
        Word(nums)("v").add_parse_action(lambda t: int(t[0])), [("-", 1, RIGHT_ASSOC), ("*", 2, LEFT_ASSOC), (Char("+-"), 2, LEFT_ASSOC)]
    ).finalize()

    stmt = Forward()
    define = Group("d" + Word(alphas)("name")) + indented_block(stmt)("body")
    stmt << (define | Word(alphas))
    env["program"] = OneOrMore(stmt).finalize()
    env["array"] = (counted_array(Word(alphas)) + Optional(Word(nums))).finalize()
    first = Word(alphas)
    env["prev"] = (first + ":" + matchPreviousLiteral(first)).finalize()
    second = Word(alphas)
    env["prevexpr"] = (second + ":" + matchPreviousExpr(second)).finalize()
    env["nested_expr"] = nested_expr("(", ")").finalize()
    env["split"] = Word(",;").finalize()
    env["upper"] = Word("b").add_parse_action(lambda t: t[0].upper()).finalize()
    env["regex"] = Regex(r"(?P<first>[a-b]+)\s+(?P<second>\w+)").finalize()
    env["all"] = ((Literal("cd")("x")) & OneOrMore("ab")("y")).finalize()
    env["keyword"] = (Keyword("ab") + OneOrMore(~Keyword("cd") + word) + Optional("cd")).finalize()
    env["dict"] = dict_of(Word(alphas), Word(nums)).finalize()
    env["open"] = OneOrMore(OpenDict(Group(Word(alphas)("key") + Word(nums)("value")))).finalize()
    env["skip"] = (SkipTo("cd")("skipped") + "cd").finalize()
    env["condition"] = OneOrMore(Word(alphas).add_condition(lambda t: t[0] == "ab")).finalize()
    env["once"] = Word(alphas)
    env["sometimes"] = Literal("ab")("x").add_parse_action(lambda t: None)
    env["either"] = Literal("ab") | "cd"
    with Whitespace("."):
        env["late"] = Forward()
        env["lately"] = Forward()
    with Whitespace("_"):
        under = Literal("a") + Literal("b")
    with Whitespace() as growing:
        env["growing"] = growing
        env["grown"] = (OneOrMore(Word("ab")) + "cd").finalize()
    env["ambiguous"] = under | (Literal("a") + Literal("c"))
    return env


OPS = {}


def op(fn):
    OPS[fn.__name__] = fn
    return fn


def parses(name, parser, text, **kw):
    def run(env):
        return snapshot(env[parser].parse(text, **kw))

    run.__name__ = name
    return op(run)


parses("words", "words", TEXT)
parses("words_all", "words", TEXT, parse_all=True)
parses("words_rebuilt", "words", "".join([TEXT[:3], TEXT[3:]]))
parses("words_longer", "words", TEXT + " x")
parses("words_empty", "words", "")
parses("words_other", "words", "cd")
parses("words_fail", "words", "1 ab")
parses("words_rest", "words", "ab ab\nab 1", parse_all=True)
parses("tight", "tight", TEXT)
parses("line", "line", TEXT)
parses("line_all", "line", TEXT, parse_all=True)
parses("ignoring", "ignoring", TEXT)
parses("raising", "raising", TEXT)
parses("nested", "nested", TEXT)
parses("nested_fails", "nested_fails", TEXT)
parses("nested_scans", "nested_scans", TEXT)
parses("recursive", "recursive", SUM)
parses("recursive_fail", "recursive", "1+(2*3", parse_all=True)
parses("infix", "infix", SUM)
parses("infix_fail", "infix", "1+2*", parse_all=True)
parses("program", "program", PROGRAM)
parses("program_cut", "program", "d f\n  d g\n    x\n", parse_all=True)
parses("program_fail", "program", "d f\n  d g\n  x\n", parse_all=True)
parses("array", "array", "2 a b 3")
parses("array_other", "array", "3 a b c 3")
parses("array_fail", "array", "2 a")
parses("prev", "prev", "ab:ab")
parses("prev_fail", "prev", "cd:ab")
parses("prevexpr", "prevexpr", "ab:ab")
parses("prevexpr_fail", "prevexpr", "cd:ab")
parses("nested_expr", "nested_expr", "(a (b) c)")
parses("regex", "regex", TEXT)
parses("all", "all", TEXT)
parses("all_other", "all", "cd ab")
parses("keyword", "keyword", TEXT)
parses("dict", "dict", "a 1 b 2")
parses("open", "open", "a 1 b 2")
parses("skip", "skip", TEXT)
parses("condition", "condition", TEXT)


@op
def derive(env):
    loose = env["loose"]
    named = loose("other").add_parse_action(lambda t: None)
    return [snapshot(e.parse("ab 12")) for e in (named, loose, Group(loose) + "x" | loose, loose.suppress())]


@op
def reparse_whole(env):
    """the same expression finalized in another whitespace context"""
    loose = env["loose"]
    out = [snapshot(loose.parse("ab 12"))]
    with Whitespace("_"):
        out.append(outcome(lambda: snapshot(loose.parse("ab_12"))))
    with whitespaces.NO_WHITESPACE:
        e = Word(alphas) + Word(nums)
        out.append(outcome(lambda: snapshot(e.parse("ab 12"))))
        out.append(outcome(lambda: snapshot(e.parse("ab12"))))
    out.append(snapshot(loose.parse("ab 12")))
    return out


@op
def context_raises(env):
    try:
        with Whitespace("x") as w:
            w.add_ignore(Literal("#"))
            Word(nums).parse("ab")
    except ParseException as cause:
        return str(cause)


@op
def build_ignoring(env):
    with Whitespace() as w:
        w.add_ignore("/*" + SkipTo("*/", include=True))
        return snapshot(OneOrMore(Word(alphas)).parse("ab /* cd */ ab"))


@op
def build_regex(env):
    e = Regex(r"(?P<x>a|b)+(c{1,2})")
    return [snapshot(e.parse(t)) for t in ("abc", "acc")] + [outcome(lambda: snapshot(e.parse("c")))]


def quiet():
    """the library warns"""
    return contextlib.redirect_stdout(io.StringIO())


def use(e, text):
    """before it is defined; whatever comes of it"""
    for fn in (lambda: e.parse(text), lambda: e.matches(text), lambda: next(e.scan_string(text)), lambda: str(e), lambda: e.expecting(), lambda: e.min_length(), lambda: e.__regex__()):
        with quiet():
            try:
                fn()
            except Exception:
                pass


@op
def late_used(env):
    if env["late"].expr is None:
        use(env["late"], "a")


@op
def late(env):
    e = env["late"]
    if e.expr is None:
        with Whitespace("."):
            e << (Literal("a") + (e | Literal("b")))
    return [outcome(lambda: snapshot(e.parse(t, parse_all=True))) for t in ("a.b", ".a.a.b", "a b", "a.a.a")], e.min_length(), sorted(e.expecting()), str(e)


@op
def lately_used(env):
    """as a part of something bigger, and then finalized"""
    if env["lately"].expr is None:
        use(env["lately"] + "b", "a")
        use(Group(env["lately"]), "a")
        with quiet():
            try:
                (env["lately"] | "b").finalize().parse("b")
            except Exception:
                pass


@op
def lately(env):
    e = env["lately"]
    if e.expr is None:
        e << Literal("a") + OneOrMore("b")
    return [outcome(lambda: snapshot(x.parse("a b b", parse_all=True))) for x in (e, Group(e), e | "c", e("n"), e + Optional("c"))]


@op
def ambiguous(env):
    """neither of two whitespaces"""
    return [outcome(lambda: snapshot(env["ambiguous"].parse(t)))[0] for t in ("a_b", "a c", " a c", "ab")]


def bare(e, text):
    """what has no whitespace of its own is parsed in that of the context"""
    return outcome(lambda: snapshot(e.parse(text))), [s for _, s, _ in e.scan_string(text)], outcome(lambda: snapshot(e.parse(text, parse_all=True)))


@op
def bare_standard(env):
    return [bare(env[k], " _ab_ ") for k in ("once", "sometimes", "either")]


@op
def bare_none(env):
    with whitespaces.NO_WHITESPACE:
        return [bare(env[k], " _ab_ ") for k in ("once", "sometimes", "either")]


@op
def bare_under(env):
    with Whitespace("_ "):
        return [bare(env[k], " _ab_ ") for k in ("once", "sometimes", "either")]


GROWN = "ab# ab #cd#"


@op
def grown_used(env):
    """before there is something to ignore"""
    if not env["growing"].ignore_list:
        use(env["grown"], GROWN)
        env["growing"].skip(GROWN, 0)


@op
def grown(env):
    if not env["growing"].ignore_list:
        env["growing"].add_ignore(Literal("#"))
    return [outcome(lambda: snapshot(env["grown"].parse(t, parse_all=True))) for t in (GROWN, "ab cd", "ab$cd")]


@op
def build_indent(env):
    return snapshot((Word(alphas) + ":" + indented_block(Word(nums))).parse("a:\n 1\n 2\n"))


@op
def build_infix(env):
    return snapshot(infix_notation(Word(alphas), [("!", 1, LEFT_ASSOC), ("&", 2, LEFT_ASSOC)]).parse("a & b! & c"))


@op
def build_fails(env):
    return [outcome(lambda: Forward().parse("a"))[:2], outcome(lambda: snapshot(Regex("(").parse("a")))[:2], outcome(lambda: snapshot(Regex("(?P<x>a)(?P<y>[)").parse("a")))[:2]]


@op
def scan(env):
    return [(snapshot(t), s, e) for t, s, e in env["words"].scan_string("1 ab 2 cd")]


@op
def scan_overlap(env):
    return [(snapshot(t), s, e) for t, s, e in env["skip"].scan_string("a cd b cd", overlap=True)]


@op
def scan_begun(env):
    """asked for one match and left"""
    g = env["tight"].scan_string(TEXT)
    env.setdefault("left", []).append(g)
    t, s, e = next(g)
    return snapshot(t), s, e


@op
def scan_closed(env):
    g = env["ignoring"].scan_string(TEXT)
    t, s, e = next(g)
    g.close()
    return snapshot(t), s, e


@op
def scan_continued(env):
    """one match more from a scan begun at first"""
    if "scan" not in env:
        env["scan"] = env["upper"].scan_string("abcb" * 9)
        env["n"] = 0
    t, s, e = next(env["scan"])
    env["n"] += 1
    return list(t), s - 2 * (env["n"] - 1), e - 2 * (env["n"] - 1)


@op
def scan_interleaved(env):
    a, b = env["words"].scan_string("ab 1 cd 2 ef"), env["upper"].scan_string("ab 1 cb 2 bf")
    return [(list(x[0]), x[1], list(y[0]), y[1]) for x, y in zip(a, b)]


@op
def transform(env):
    return env["upper"].transform_string("abc b\tb  d")


@op
def split(env):
    return list(env["split"].split("a,b;,c")), list(env["split"].split("a,b;c", maxsplit=1))


@op
def split_begun(env):
    return next(env["split"].split("a,b;,c"))


@op
def search(env):
    return snapshot(env["regex"].search_string("1 ab cd ab ab"))


@op
def edit(env):
    """a result is edited, and asked for again"""
    r = env["words"].parse(TEXT)
    before = snapshot(r)
    r["w"] = "changed"
    r["new"] = 1
    del r["w"]
    return before, snapshot(env["words"].parse(TEXT)), r["new"]


@op
def silent(env):
    with Debugger(silent=True):
        return snapshot(env["words"].parse(TEXT)), outcome(lambda: snapshot(env["raising"].parse(TEXT)))


@op
def printing(env):
    with contextlib.redirect_stdout(io.StringIO()):
        with Debugger():
            return snapshot(env["keyword"].parse(TEXT))


@op
def strings(env):
    return [str(env[k].element if hasattr(env[k], "element") else env[k]) for k in ("loose", "infix", "keyword", "skip", "all")]


@op
def contains(env):
    return [env["once"].matches(t) for t in ("ab", "1")] if hasattr(env["once"], "matches") else None


#: operations which go in front in the longer histories of the quick tier
FEW = (
    "tight", "ignoring", "raising", "nested_fails", "program_fail", "array_other", "array_fail", "prev", "prevexpr_fail", "infix_fail", "derive", "reparse_whole", "context_raises", "build_indent",
    "build_fails", "late_used", "lately_used", "grown_used", "bare_none", "bare_under", "ambiguous", "scan_begun", "scan_continued", "transform", "silent",
)


def settings():
    c = whitespaces.CURRENT
    return (
        c.white_chars, tuple(str(i) for i in c.ignore_list), len(whitespaces.whitespace_stack), mo_parsing.core.ParserElement._parse.__name__,
    )


def answer(name, env):
    before = settings()
    got = outcome(lambda: OPS[name](env))
    after = settings()
    if after != before:
        return ("settings changed", before, after)
    return got


def in_child(fn):
    """fn() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn(), 4)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            os._exit(0)
        except BaseException as cause:
            os._exit(77)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        return ("process ended", status)
    return pickle.loads(data)


_expected = {}


def expected(name):
    if name not in _expected:
        env = environment_once()
        _expected[name] = in_child(lambda: answer(name, env))
    return _expected[name]


_env = []


def environment_once():
    """made before anything is parsed; only children parse"""
    if not _env:
        _env.append(environment())
    return _env[0]


def shards(tier):
    return [(tier, j, 32) for j in range(32)]


def histories(tier):
    names = list(OPS)
    out = [(o,) for o in names]
    if tier == "quick":
        out += list(itertools.product(FEW, repeat=2))
    else:
        out += list(itertools.product(names, repeat=2))
        out += list(itertools.product(FEW, repeat=3))
    return out


def one(history, probes, rep):
    """the history in a child, each probe in a child of that"""
    env = environment_once()
    case = (history, None)
    rep.begin(case)

    def go():
        got = [answer(o, env) for o in history]
        return got, [in_child(lambda: answer(p, env)) for p in probes]

    got = in_child(go)
    if got[0] == "process ended":
        rep.violation(case, "answers", got)
        return
    before, after = got
    rep.add("evaluations", len(before) + len(after))
    for o, g in zip(history, before):
        if g != expected(o):
            rep.violation(case, expected(o), g, note="%s in the history" % (o,))
            return
    for p, g in zip(probes, after):
        rep.outcome(g[0])
        if g[0] in ("gave", "no match", "raised"):
            rep.add("distinct_nontrivial")
        if g != expected(p):
            rep.violation((history, p), expected(p), g)
            return
    rep.end()


def run_shard(shard, tier, rep):
    t, j, k = shard
    for x, h in enumerate(part(histories(t), j, k)):
        rep.add("histories")
        one(h, tuple(OPS), rep)
        if x == 1:
            rep.sample("history %r then each of %d operations" % (h, len(OPS)))


def replay(case, rep):
    history, probe = case
    one(tuple(history), (probe,) if probe else (), rep)
