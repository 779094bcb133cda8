# encoding: utf-8
"""the Debugger"""
import contextlib
import io
import itertools
import sys
import types

from mc import peg
from mc.build import Builder, attempt, outcome, snapshot, ParseException, tree
from mc.family import *
from mc.universe import strings, part, trees
from mo_parsing.debug import Debugger


def stand_in(name, **members):
    """for packages the profiler writes its report with, where they are not installed"""
    try:
        __import__(name)
    except ImportError:
        module = types.ModuleType(name)
        module.__dict__.update(members)
        sys.modules[name] = module


class File(object):
    written = []

    def __init__(self, name):
        self.name = name

    def set_extension(self, ext):
        return self

    def add_suffix(self, suffix):
        return self

    def write(self, report):
        File.written.append(report)


class Date(object):
    @classmethod
    def now(cls):
        return cls()

    def format(self, pattern):
        return "now"


class jx(object):
    @staticmethod
    def sort(data, by):
        return list(data)


stand_in("jx_python", jx=jx)
stand_in("mo_files", File=File)
stand_in("mo_times", Date=Date)
from mo_parsing import profile

profile.File = File  # no report goes to disk

PID = "C20"
LEVEL = "exploration"
RULE = (
    "every grammar of up to N nodes with names, actions of every kind (replacing, refusing, failing) and conditions, every text of up to L characters: results with all names and positions, failures with their messages, "
    "and every call of an action with its arguments, plain, under a silent and under a printing Debugger, under the Profiler, and plain again; every sequence of entering, leaving, leaving by an exception and parsing up to a length. "
    "An outcome is non-trivial when the text was matched or an action was called"
)
ASSUMPTIONS = ["the packages the Profiler writes its report with are replaced by stand-ins", "bounds: grammar size, alphabet, text length, and history length as in the plan", "Debuggers are left in the reverse order of entering"]

A, B = lit("a"), lit("b")
LEAVES = (A, word("ab"), ("act", "upper", B), ("cond", "two", word("ab")), ("act", "raise", lit("c")), ("trycond", "two", word("ab")))
UNARY = (
    opt, many(0, BIG), many(1, 2), many(2, 2), group, supp, comb, look, neg, named("x"), ("act", "upper").__add__, ("act", "refuse").__add__, ("act", "raise").__add__, ("act", "short").__add__,
    ("cond", "even").__add__, ("try", "upper").__add__, ("trycond", "two").__add__, ("fail", "f").__add__,
    lambda e: ("skipto", e, False), lambda e: ("skipto", e, True),
)


def lift(u):
    if getattr(u, "__name__", "") == "__add__":
        return lambda e: u((e,))
    return u


UNARY = tuple(lift(u) for u in UNARY)
BINARY = (seq, alt, lor, lambda e, f: ("all", e, f))


class Watching(Builder):
    def __init__(self, style, calls):
        Builder.__init__(self, style)
        self.calls = calls

    def seen(self, what, tokens, loc, string):
        self.calls.append((what, snapshot(tokens), loc, string))

    def b_act(self, ident, e):
        def action(tokens, loc, string):
            self.seen(ident, tokens, loc, string)
            if ident == "raise":
                raise ValueError("action")
            if ident == "refuse":
                raise ParseException(tokens.type, loc, string, msg="refused")
            if ident == "short":
                return next((t for t in tokens.tokens if hasattr(t, "tokens")), None)
            return [t.upper() if isinstance(t, str) else t for t in tokens]

        return self(e).add_parse_action(action)

    def b_cond(self, ident, e, **kw):
        def condition(tokens, loc, string):
            self.seen(ident, tokens, loc, string)
            return peg.CONDITIONS[ident](list(tokens))

        return self(e).add_condition(condition, **kw)

    def b_try(self, ident, e):
        def action(tokens, loc, string):
            self.seen("try", tokens, loc, string)

        return self(e).add_parse_action(action, callDuringTry=True)

    def b_trycond(self, ident, e):
        return self.b_cond(ident, e, callDuringTry=True)

    def b_fail(self, ident, e):
        def failed(expr, loc, string, cause):
            self.calls.append(("failed", loc, string))

        return self(group(e)).setFailAction(failed)


PLAN = {
    "quick": [(2, "abc ", 2, 16), (3, "ab", 1, 48)],
    "thorough": [(2, "abc ", 4, 32), (3, "abc ", 3, 256)],
}
HISTORY = {"quick": 5, "thorough": 7}


def universe(n):
    for k in range(1, n + 1):
        for t in trees(k, LEAVES, UNARY, BINARY, ()):
            yield t


def shards(tier):
    out = [("grammar", tier, i, j, row[-1]) for i, row in enumerate(PLAN[tier]) for j in range(row[-1])]
    return out + [("history", tier, 0, j, 8) for j in range(8)]


def run(parser, calls, s):
    del calls[:]
    got = outcome(lambda: snapshot(parser.parse(s)))
    return got, list(calls)


def grammar(ast, style, inputs, rep):
    calls = []
    case = ("grammar", ast, style, "")
    rep.begin(case)
    ok, parser = attempt(lambda: Watching(style, calls)(ast).finalize())
    if not ok:
        rep.outcome("refused")
        rep.end()
        return
    rep.add("grammars")
    for s in inputs:
        case = ("grammar", ast, style, s)
        rep.begin(case)
        expected = run(parser, calls, s)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            with Debugger(silent=True):
                silent = run(parser, calls, s)
            quiet = out.getvalue()
            with Debugger():
                loud = run(parser, calls, s)
            spoken = out.tell()
            with profile.Profiler("never"):
                profiled = run(parser, calls, s)
            after = run(parser, calls, s)
        rep.add("evaluations", 4)
        if expected[0][0] != "no match" or expected[1]:
            rep.add("distinct_nontrivial")
        rep.outcome(expected[0][0])
        for what, got in (("silent", silent), ("printing", loud), ("profiled", profiled), ("afterwards", after)):
            if got != expected:
                rep.violation(case, expected, got, note=what)
                return
        if quiet:
            rep.violation(case, "nothing printed when silent", quiet[:200])
            return
        if not spoken:
            rep.violation(case, "attempts are printed", "nothing")
            return
        if out.tell() != spoken:
            rep.violation(case, "nothing printed after leaving", out.getvalue()[spoken:][:200])
            return
    rep.end()


# again: what was entered last, or first, is entered once more
OPS = ("enter", "quiet", "profile", "again", "first", "leave", "throw", "parse", "fail", "error")
GRAMMAR = seq(A, opt(("act", "upper", B)), opt(("act", "raise", lit("c"))))
TEXTS = {"parse": "a b", "fail": "b", "error": "a b c"}


def histories(n):
    """entering and leaving in order, leaving all at the end"""
    def go(h, depth):
        yield h
        if len(h) < n:
            for o in OPS:
                if o in ("enter", "quiet", "profile"):
                    yield from go(h + (o,), depth + 1)
                elif o in ("again", "first"):
                    if depth > (o == "first"):
                        yield from go(h + (o,), depth + 1)
                elif o in ("leave", "throw"):
                    if depth:
                        yield from go(h + (o,), depth - 1)
                elif not h or h[-1] != o:
                    yield from go(h + (o,), depth)

    return go((), 0)


def history(h, rep):
    case = ("history", h)
    rep.begin(case)
    calls = []
    parser = Watching("ctor", calls)(GRAMMAR).finalize()
    expected = {o: run(parser, calls, t) for o, t in TEXTS.items()}
    stack = []
    out = io.StringIO()

    def loud():
        return bool(stack) and isinstance(stack[-1], Debugger) and not stack[-1].silent

    def probe(o):
        before = out.tell()
        got = run(parser, calls, TEXTS[o])
        rep.add("evaluations")
        if got != expected[o]:
            rep.violation(case, expected[o], got)
        if bool(out.tell() - before) != loud():
            rep.violation(case, "printing: %s" % loud(), out.getvalue()[before:][:200])

    with contextlib.redirect_stdout(out):
        for o in h:
            if o in ("enter", "quiet"):
                stack.append(Debugger(silent=o == "quiet"))
                stack[-1].__enter__()
            elif o == "profile":
                stack.append(profile.Profiler("never"))
                stack[-1].__enter__()
            elif o in ("again", "first"):
                stack.append(stack[0 if o == "first" else -1])
                stack[-1].__enter__()
            elif o == "leave":
                stack.pop().__exit__(None, None, None)
            elif o == "throw":
                d = stack.pop()
                cause = ValueError("x")
                d.__exit__(ValueError, cause, None)
            else:
                probe(o)
        while stack:
            stack.pop().__exit__(None, None, None)
            probe("parse")
        probe("error")
        probe("fail")
    rep.add("distinct_nontrivial")
    rep.end()


def run_shard(shard, tier, rep):
    what, t, i, j, k = shard
    if what == "grammar":
        n, alphabet, length, _ = PLAN[t][i]
        inputs = list(strings(alphabet, length))
        for x, ast in enumerate(part(universe(n), j, k)):
            grammar(ast, "op" if x % 2 else "ctor", inputs, rep)
            if x == j == 0:
                rep.sample("%r on %d texts" % (ast, len(inputs)))
    else:
        for x, h in enumerate(part(histories(HISTORY[t]), j, k)):
            history(h, rep)
            if x == 50:
                rep.sample("history %r" % (h,))


def replay(case, rep):
    if case[0] == "grammar":
        grammar(case[1], case[2], [case[3]], rep)
    else:
        history(case[1], rep)
