# encoding: utf-8
"""threads may share parsers: every schedule up to a preemption bound, on the real code"""
from mc import sched  # BEFORE THE LIBRARY, SO ITS LOCKS ARE OURS
import os

import mo_parsing
from mc.build import snapshot, outcome
from mo_parsing import *
from mo_parsing import whitespaces
from mo_parsing.helpers import counted_array, indented_block, matchPreviousLiteral, delimited_list
from mo_parsing.infix import infix_notation, LEFT_ASSOC, RIGHT_ASSOC
from mo_parsing.utils import alphas, nums

PID = "C15"
LEVEL = "exploration"
RULE = (
    "every schedule of the threads of a scenario with at most P preemptions, each at any line (or any bytecode) of the library and at any acquire or release of a lock, started by each thread: "
    "each call answers what it answers when it is alone, no thread is left waiting, and afterwards every call still answers the same and a new grammar parses as it did. "
    "A schedule is non-trivial when another thread got to run in the middle of a call"
)
ASSUMPTIONS = [
    "bounds: the scenarios listed in the check, and P",
    "when a thread that holds a lock is preempted, and the other has to wait for a lock or is done after at most %d lines, then any other point of that hold is taken to give the same: "
    "quick runs the first of each hold only, thorough runs all, but extends only the first by further preemptions" % 12,
    "a line of the library is atomic, except where bytecodes are the scheduling points",
]

LIBRARY = os.path.dirname(mo_parsing.__file__)
_known_code = {}


def is_library(code):
    try:
        return _known_code[code]
    except KeyError:
        answer = _known_code[code] = code.co_filename.startswith(LIBRARY)
        return answer


def ask(fn):
    """answer or exception, read when all threads have ended"""
    try:
        return Answer(fn(), None)
    except Exception as cause:
        return Answer(None, cause)


class Answer(object):
    def __init__(self, value, cause):
        self.value = value
        self.cause = cause

    def read(self):
        def again():
            if self.cause is not None:
                raise self.cause
            return read(self.value)

        return outcome(again)


def read(value):
    if isinstance(value, Answer):
        return value.read()
    if isinstance(value, (list, tuple)):
        return [read(v) for v in value]
    return snapshot(value)


SCENARIOS = {}


def scenario(fn):
    SCENARIOS[fn.__name__] = fn
    return fn


def parses(parser, *texts, **kw):
    def run():
        return [ask(lambda: parser.parse(t, **kw)) for t in texts]

    return run


def scans(parser, text, **kw):
    def run():
        return ask(lambda: list(parser.scan_string(text, **kw)))

    return run


@scenario
def same_parser():
    p = OneOrMore(Word("ab")("w")).finalize()
    return [parses(p, "a bb"), parses(p, "a     b")]


@scenario
def same_parser_three():
    p = OneOrMore(Char("ab")).finalize()
    return [parses(p, "a b"), parses(p, "a    b"), parses(p, "a  !")]


@scenario
def same_length_texts():
    """as long, white in other places"""
    p = (Literal("a") + "b").finalize()
    return [parses(p, "a   b"), parses(p, "a b  "), parses(p, "ab   ")]


@scenario
def matches_and_fails():
    p = (Literal("a") + "b" | "c").finalize()
    return [parses(p, "a c", parse_all=True), parses(p, "a   b", parse_all=True)]


@scenario
def other_parsers_same_white():
    p = (Word("ab") + Word("ab")).finalize()
    q = (Optional(Literal("a")) + "b").finalize()
    return [parses(p, "a b"), parses(q, "a    b")]


@scenario
def ignoring():
    with Whitespace() as white:
        white.add_ignore(Literal("#"))
        p = (Literal("a") + "b").finalize()
        q = OneOrMore(Char("ab")).finalize()
    return [parses(p, "a b"), parses(q, "a # b#")]


@scenario
def finalize_one():
    e = Literal("a")("x") + Optional("b")
    return [parses(e, "a b"), parses(e, "a    b")]


@scenario
def finalize_shared():
    shared = (Literal("a") | "b")("x")
    e = shared + "c"
    f = OneOrMore(Group(shared))
    return [parses(e, "a c"), parses(f, "a    b")]


@scenario
def finalize_recursive():
    e = Forward()
    e << (Literal("a") | Group("(" + e + ")"))
    return [parses(e, "((a) )"), parses(e, "(    a)")]


@scenario
def finalize_mutual():
    e, f = Forward(), Forward()
    e << (Literal("a") + Optional(f))
    f << (Literal("b") + Optional(e))
    return [parses(e, "a ba"), parses(f, "b    ab")]


@scenario
def finalize_other_white():
    with whitespaces.NO_WHITESPACE:
        e = Literal("a") + "b"
    f = Literal("a") + "b"
    return [parses(e, "ab", "a b"), parses(f, "ab", "a b")]


@scenario
def finalize_terminal():
    """white comes from where it is finalized"""
    with whitespaces.NO_WHITESPACE:
        e = Literal("a") + "b"
    return [parses(e, "ab"), parses(Literal("a"), " a")]


@scenario
def finalize_while_parsing():
    e = Literal("a") + Optional("b")
    p = e.finalize()
    return [parses(p, "a b"), parses(e("x"), "a    b")]


@scenario
def two_scans():
    p = Char("ab").finalize()
    return [scans(p, "a b"), scans(p, "a    b")]


@scenario
def scan_and_parse():
    p = Char("ab").finalize()
    q = OneOrMore(Char("ab")).finalize()
    return [scans(p, "a b"), parses(q, "a    b")]


@scenario
def scan_left_open():
    p = Char("ab").finalize()
    kept = []

    def begin():
        kept.append(p.scan_string("a b"))
        return [ask(lambda: next(kept[-1])[0])]

    return [begin, parses(p, " b")]


@scenario
def scan_passed_on():
    """begun before, continued here while the other parses"""
    p = Char("ab").finalize()
    it = p.scan_string("a b")
    first = snapshot(next(it)[0])

    def rest():
        return [first, list(it)]

    return [rest, parses(p, " b")]


@scenario
def overlap_scans():
    p = (Char("a") + "a").finalize()
    return [scans(p, "aaa", overlap=True), scans(p, "a   a", overlap=True)]


@scenario
def splits():
    p = Char(",").finalize()

    def split(text):
        return lambda: ask(lambda: list(p.split(text)))

    return [split(",a,b"), split(",    ,c")]


@scenario
def transforms():
    p = Char("b").add_parse_action(lambda t: "<" + t[0] + ">").finalize()

    def transform(text):
        return lambda: ask(lambda: p.transform_string(text))

    return [transform("bab"), transform("b    b")]


@scenario
def searches():
    p = Char("ab").finalize()

    def search(text):
        return lambda: ask(lambda: p.search_string(text))

    return [search("a b"), search("a    b")]


@scenario
def expression_transforms():
    """through the expression, not the parser made of it"""
    e = Char("b").add_parse_action(lambda t: "<" + t[0] + ">")

    def transform(text):
        return lambda: ask(lambda: e.transform_string(text))

    return [transform("bab"), transform("b    b")]


@scenario
def expression_transforms_and_parses():
    e = Char("ab").add_parse_action(lambda t: "<" + t[0] + ">")
    f = OneOrMore(e)
    return [lambda: ask(lambda: e.transform_string("a.b")), parses(f, "b    b")]


@scenario
def expression_scans():
    e = Char("ab")
    return [scans(e, "a b"), scans(e, "a    b")]


@scenario
def expression_searches():
    e = Char("ab")

    def search(text):
        return lambda: ask(lambda: e.search_string(text))

    return [search("a b"), search("a    b")]


@scenario
def expression_splits():
    e = Char(",")

    def split(text):
        return lambda: ask(lambda: list(e.split(text)))

    return [split(",a,b"), split(",    ,c")]


@scenario
def expression_matches():
    e = Literal("a") + "b"

    def matches(text):
        return lambda: ask(lambda: e.matches(text))

    return [matches("a    b"), matches("a b ")]


@scenario
def files():
    import io

    e = Literal("a") + "b"

    def parse(text):
        return lambda: ask(lambda: e.parse_file(io.StringIO(text), parse_all=True))

    return [parse("a    b"), parse("a b ")]


@scenario
def actions_that_parse():
    inner = OneOrMore(Char("ab")).finalize()

    def action(tokens, loc, string):
        return inner.parse(string).as_list() + [tokens[0]]

    p = OneOrMore(Char("ab").add_parse_action(action)).finalize()
    return [parses(p, "a b"), parses(p, "a    b")]


@scenario
def actions_that_raise():
    def action(tokens, loc, string):
        if loc:
            raise ValueError("action")

    p = OneOrMore(Char("ab").add_parse_action(action)).finalize()
    return [parses(p, "a b"), parses(p, "b")]


@scenario
def actions_that_build():
    def action(tokens, loc, string):
        e = Literal("a") + Optional("b")
        return e.parse(string).as_list()

    p = Char("ab").add_parse_action(action).finalize()
    return [parses(p, "a b"), parses(p, "a")]


@scenario
def indented():
    p = (Literal("x") + indented_block(Char("ab"))).finalize()
    return [parses(p, "x\n a\n b"), parses(p, "x\n  a\n b")]


@scenario
def counted():
    """the expression is filled in while parsing"""
    p = counted_array(Char("ab")).finalize()
    return [parses(p, "2 a b"), parses(p, "1    b")]


@scenario
def infix():
    p = infix_notation(Char("ab"), [("-", 1, RIGHT_ASSOC), ("+", 2, LEFT_ASSOC)]).finalize()
    return [parses(p, "a + -b"), parses(p, "a    -b")]


@scenario
def lookaheads():
    p = (OneOrMore(~Literal("b") + Char("ab")) + Optional(Literal("b"))("x")).finalize()
    return [parses(p, "a ab"), parses(p, "a     b")]


@scenario
def match_all():
    p = (Literal("a")("x") & Optional("b")("y")).finalize()
    return [parses(p, "b a"), parses(p, "a")]


@scenario
def skip_to():
    p = (SkipTo("b")("x") + "b").finalize()
    return [parses(p, "a b"), parses(p, "a    b")]


@scenario
def reading():
    """a result is read while another is made"""
    p = OneOrMore(Group(Char("ab")("w"))("g")).finalize()
    result = p.parse("a b")

    def reads():
        return [result.as_list(), snapshot(result), len(result), list(result["g"])]

    return [reads, parses(p, "b")]


@scenario
def regexes():
    p = OneOrMore(Regex("(?P<x>a)(?P<y>b)?")).finalize()
    return [parses(p, "a ab"), parses(p, "a    ab")]


def probe():
    e = OneOrMore(Word("ab")("w") + Optional("-"))
    return outcome(lambda: snapshot(e.parse(" a b-\ta", parse_all=True)))


def alone(make):
    answers = []
    for i in range(len(make())):
        answers.append(read(make()[i]()))
    return answers


LONG = {"finalize_other_white", "two_scans", "overlap_scans", "splits", "expression_scans", "expression_splits", "expression_searches", "expression_transforms", "expression_transforms_and_parses", "expression_matches", "files"}
UNREDUCED = {
    "same_parser", "finalize_one", "finalize_shared", "scan_and_parse", "two_scans", "ignoring", "actions_that_parse", "scan_left_open",
}


def plan(tier):
    """(scenario, preemptions, opcodes, only the first point of each hold, how many parts)"""
    for name in SCENARIOS:
        if name == "reading":
            yield name, 1 if tier == "quick" else 2, False, False, 1 if tier == "quick" else 8
        elif tier == "quick":
            yield name, 2 if name in LONG else 3, False, True, 1
            if name in UNREDUCED:
                yield name, 1, False, False, 1
        else:
            yield name, 3 if name in LONG else 4, False, True, 4
            yield name, 2, False, False, 4
            yield name, 1, True, False, 4
            yield name, 2, True, True, 1


def shards(tier):
    rows = [(name, bound, opcodes, reduce, k, n) for name, bound, opcodes, reduce, n in plan(tier) for k in range(n)]
    return sorted(rows, key=lambda r: r[0] not in UNREDUCED)


CAP = {"quick": 4000, "thorough": 60000}


class Explorer(object):
    def __init__(self, name, rep, opcodes, cap, reduce=False):
        self.reduce = reduce
        self.name = name
        self.make = SCENARIOS[name]
        self.rep = rep
        self.opcodes = opcodes
        self.cap = cap
        self.expected = alone(self.make)
        self.probed = probe()
        self.runs = 0
        self.failed = 0
        self.distinct = set()

    def run(self, first, preemptions):
        rep = self.rep
        case = (self.name, self.opcodes, first, tuple(sorted(preemptions.items())))
        rep.begin(case, 60)
        bodies = self.make()
        s = sched.Schedule(bodies, first, preemptions, is_library, self.opcodes).run()
        self.runs += 1
        rep.add("evaluations")
        rep.add("points", s.steps)
        if s.deadlock or s.dead:
            rep.end()
            self.failed += 1
            rep.violation(case, "every thread ends", "threads %s wait for ever" % [i for i, d in enumerate(s.done) if not d], note=str(s.switches))
            return s
        if len(s.switches) == len(preemptions):
            rep.add("distinct_nontrivial", 1 if preemptions else 0)
        got = [read(r) for r in s.results]
        bad = None
        if got != self.expected:
            bad = (self.expected, got, "while running together")
        else:
            after = probe()
            if after != self.probed:
                bad = (self.probed, after, "a new grammar, afterwards")
            else:
                again = [read(b()) for b in bodies] if "scan_passed_on" != self.name else self.expected
                if again != self.expected:
                    bad = (self.expected, again, "the same calls again, afterwards")
        rep.end()
        if bad:
            self.failed += 1
            rep.violation(case, bad[0], bad[1], note="%s %s" % (bad[2], s.switches))
        return s

    def explore(self, first, preemptions, left, after, keep=lambda i: True):
        """all schedules that extend this one, by preemptions later than `after`"""
        if self.runs >= self.cap or self.failed > 5:
            return None
        s = self.run(first, preemptions)
        if s.dead or not left:
            return s
        seen = set()
        for number in range(after + 1, s.steps):
            me, hold, others = s.choices[number]
            if not keep(number):
                continue
            for other in others:
                if self.runs >= self.cap or self.failed > 5:
                    return s
                extended = dict(preemptions)
                extended[number] = other
                deeper = left - 1
                if hold and (me, hold, other) in seen:
                    if self.reduce:
                        continue
                    deeper = 0
                t = self.explore(first, extended, deeper, number)
                if t is None:
                    return s
                if hold and only_waited(t, number, me, other):
                    seen.add((me, hold, other))
        return s


SHORT_LINES = 12
SHORT_OPCODES = 120


def only_waited(schedule, number, me, other):
    """after a few steps the other thread had to wait or was at its end, and control came back"""
    steps = schedule.choices[number + 1:number + 2 + (SHORT_OPCODES if schedule.opcodes else SHORT_LINES)]
    for i, (who, _, _) in enumerate(steps):
        if who == me:
            return any(t == other and number < at <= number + 1 + i for at, t in schedule.blocked_once + schedule.ended)
    return False


def run_shard(shard, tier, rep):
    name, bound, opcodes, reduce, k, n = shard
    x = Explorer(name, rep, opcodes, CAP[tier], reduce)
    for first in range(len(SCENARIOS[name]())):
        if bound > 1 and k == 0:
            x.explore(first, {}, 1, -1)  # SO A CUT LEAVES NONE OF THESE OUT
    for first in range(len(SCENARIOS[name]())):
        x.explore(first, {}, bound, -1, keep=(lambda i: i % n == k) if n > 1 else (lambda i: True))
    if x.runs >= x.cap:
        rep.add("cut_short")
    rep.sample("%s, %d preemptions, %s: %d schedules, each answering %r" % (name, bound, "bytecodes" if opcodes else "lines", x.runs, x.expected))


def replay(case, rep):
    name, opcodes, first, preemptions = case
    x = Explorer(name, rep, opcodes, 1)
    x.run(first, dict(preemptions))
