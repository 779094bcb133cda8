# encoding: utf-8
"""whitespace contexts"""
import itertools

from mc import peg, conform
from mc.build import Builder, attempt, run, tree, FAIL, Whitespace, Literal, Word, Keyword, CaselessLiteral, Suppress, Group, And, ParseException
from mc.family import *
from mc.universe import trees, strings, part
from mo_parsing import whitespaces

PID = "C07"
LEVEL = "model_checking"
RULE = (
    "grammars: every grammar of up to N nodes in which any sub-expressions are made inside whitespace contexts (characters, none, ignored expressions), finalized inside none or another context, on every input of up to L characters, against the reference; "
    "strings: what a plain string stands for (set_literal, set_keyword_chars) in every nesting of two contexts; "
    "histories: every sequence of up to K enter, leave, leave by exception, use, release, parse, failing parse, raising action, adding to what the current or another context ignores, changing its characters: the context in force after every step, and what is made and parsed then"
)
ASSUMPTIONS = [
    "bounds: grammar size, contexts, alphabet and input length, history length as in the plan",
    "a grammar whose alternatives begin in different contexts is refused when finalized (must dis-ambiguate); leading whitespace of a lone terminal is that of the context in which the parser is made",
]

CONF = {
    "none": ("", None),
    "blank": (" ", None),
    "x": ("x", None),
    "ax": ("x ", None),
    "semi": (" ", ("semi",)),
    "stdsemi": (peg.STD[0], ("semi",)),
    "onlysemi": ("", ("semi",)),
    "two": (" ", ("semi", "hash")),
    "cc": (" \n", ("cc",)),
    "re": ("]^-\\", None),
}
A, B = lit("a"), lit("b")


def ws(c):
    conf = CONF[c]

    def make(e):
        if e[0] in ("lit", "word", "re", "ws"):
            return None  # nothing in there for a context to apply to
        return ("ws", conf, e)

    return make


UNARY = (many(0, BIG), opt, group)
LEAVES = (A, B, lit("a b"), word("ab"), ("re", "a;?"))


def wrapped(e):
    return peg.contains(e, ("ws",))


def universe(kind):
    k, confs, n = kind.split("-")
    confs = tuple(ws(c) for c in confs.split("+"))
    n = int(n)
    if k == "tree":
        return (e for e in trees(n, LEAVES, UNARY + confs, (seq, alt), ()) if wrapped(e))
    if k == "small":
        return (e for e in trees(n, (A, B), (many(1, BIG),) + confs, (seq,), (seq,)) if wrapped(e))
    if k == "kinds":
        return kinds(confs, n)
    raise Exception()


def kinds(confs, n):
    """every kind of expression over a sequence, each made in some context"""
    C = lit("c")
    inner = (seq(A, B), ("many", A, 1, BIG), seq(A, opt(B)), ("many", seq(A, opt(C)), 0, 2), alt(seq(A, B), seq(A, A)), ("skipto", B, False), ("skipto", seq(A, B), True), ("all", A, opt(B)), ("all", A, B))
    outer = (
        opt, many(0, BIG), many(1, BIG), group, supp, comb, look, neg, name("x"),
        lambda e: seq(e, C), lambda e: seq(A, e), lambda e: alt(e, C), lambda e: alt(C, e), lambda e: lor(C, e), lambda e: ("all", C, e), lambda e: ("skipto", e, True), lambda e: ("skipto", e, False),
        lambda e: ("act", "upper", e), lambda e: ("rec", e), lambda e: ("rec", seq(A, opt(("self",)), opt(e))), lambda e: ("opt", e, "dflt"), lambda e: seq(look(A), e), lambda e: seq(neg(C), e), lambda e: ("many", C, 0, BIG, e),
    )
    same = lambda e: e
    for i in inner:
        for c1 in confs + (same,):
            for o in outer:
                for c2 in confs + (same,):
                    try:
                        e = o(c1(i))
                    except TypeError:
                        continue
                    if e is None or e[0] == "many" and e[2] and peg.nullable(e[1]):
                        continue
                    if e[0] == "many" and len(e) > 4 and peg.contains(e[4], ("skipto", "all", "look", "not", "many", "opt", "ws")):
                        continue
                    if e[0] == "all" and e[-1][0] == "all":
                        continue  # one list of members
                    e = c2(e)
                    if e is not None and wrapped(e):
                        if n == 1:
                            yield e
                        else:
                            for o2 in outer:
                                f = o2(e)
                                if f is not None and not (f[0] == "many" and (f[2] and peg.nullable(f[1]) or len(f) > 4)):
                                    yield f


class Ambiguous(Exception):
    pass


def tops(a, ctx):
    """the contexts of the leading whitespace: None, or a list of (id, conf)"""
    k = a[0]
    if k == "ws":
        return tops(a[2], (id(a), a[1]))
    if k in ("seq", "many", "opt"):
        return ctx
    if k in ("alt", "or", "all"):
        return [tops(e, ctx) for e in a[1:]]
    if k in ("group", "supp", "comb", "look", "not", "behind", "rec", "skipto"):
        return tops(a[1], ctx)
    if k in ("name", "act", "cond"):
        return tops(a[2], ctx)
    return None


def verify(t):
    if isinstance(t, list):
        found = [w for w in map(verify, t) if w is not None and w[1] != peg.NOWS]
        if not found:
            return None
        if any(w[0] != found[0][0] for w in found):
            raise Ambiguous()
        return found[0]
    return t


OTHER = ("ab.", None)  # a context that would be noticed if it applied to what was made elsewhere


class Contexts(conform.Conformance):
    def top(self, ast):
        t = verify(tops(ast, (0, peg.STD)))
        return t[1] if t else self.late or peg.STD

    late = None

    def grammar(self, ast, style, inputs, share=None):
        rep = self.rep
        for late in (None, OTHER):
            case = (ast, style, "", late)
            rep.begin(case)

            def make():
                e = Builder(style)(ast)
                if late:
                    with Whitespace(late[0]):
                        return e.finalize()
                return e.finalize()

            ok, parser = attempt(make)
            rep.end()
            self.late = late
            try:
                self.top(ast)
                good = True
            except Ambiguous:
                good = False
            if not ok and not good and "problem" in str(parser):
                rep.outcome("ambiguous")
                continue
            if not ok:
                rep.violation(case, "the grammar can be made", parser)
                return
            if not good:
                rep.violation(case, "refused, which whitespace to use is ambiguous", "accepted")
                return
            rep.add("grammars")
            for s in inputs[::3] if late else inputs:
                self.one(ast, style, parser, s)


F = Family(
    {
        "quick": [
            ("tree-none+x-3", "ab x", 3, 4, 1), ("tree-none+x-4", "ab x", 3, 32, 0), ("tree-none+x-5", "a x", 3, 32, 0), ("tree-semi+two+onlysemi-3", "ab; ", 4, 4, 0), ("tree-semi-4", "ab; ", 3, 32, 0),
            ("small-none+ax+blank-5", "a x", 3, 16, 0), ("kinds-none+ax+semi-1", "abc", 3, 8, 0), ("kinds-none+ax-1", "ab x", 3, 8, 0), ("kinds-semi-1", "ab; ", 3, 8, 0),
            ("kinds-blank+semi-1", "ab;", 4, 8, 0), ("kinds-stdsemi-1", "ab;", 4, 8, 0),
            ("tree-re-3", "a]^-\\", 3, 4, 0), ("tree-two-3", "a#\n ", 4, 4, 0), ("tree-cc-3", "a/* ", 5, 8, 0),
        ],
        "thorough": [
            ("tree-none+x-4", "ab x", 4, 64, 1), ("tree-semi+two+onlysemi-4", "ab; ", 4, 64, 0), ("tree-none+x-5", "a x", 3, 256, 0), ("tree-two+semi-4", "a#\n ", 4, 64, 0),
            ("small-none+ax+blank-5", "ab x", 4, 64, 0), ("small-none+ax+semi-6", "ax ;", 3, 256, 0), ("kinds-none+ax+semi-1", "abx ;", 4, 64, 1), ("kinds-none+ax-2", "abx ", 3, 128, 0), ("kinds-blank+semi+two-1", "ab;#", 4, 64, 1), ("kinds-stdsemi-2", "ab;", 4, 64, 0), ("tree-cc-3", "ab/*", 6, 16, 1), ("tree-re-4", "a]^-\\", 4, 64, 0),
        ],
    },
    universe,
    {"recog", "end", "tree"},
    settle=lambda s, p: conform.settle(s, p, " \n\r\tx;]^-\\#"),
    klass=Contexts,
)


# ---------------------------------------------------------------- what a string stands for
LITERALS = {
    "Literal": (None, lambda s: lit(s)),
    "Suppress": (Suppress, lambda s: supp(lit(s))),
    "Keyword": (Keyword, lambda s: ("kw", s, None)),
    "Caseless": (CaselessLiteral, lambda s: ("clit", s)),
    "grouped": (lambda s: Group(Literal(s)), lambda s: group(lit(s))),
}
CHARS = (None, "a", "1")
FORMS = {
    "left": (lambda w: "a" + w, lambda l, w: seq(l("a"), w)),
    "right": (lambda w: w + "ab", lambda l, w: seq(w, l("ab"))),
    "or": (lambda w: w | "b", lambda l, w: alt(w, l("b"))),
    "ror": (lambda w: "a" | w, lambda l, w: alt(l("a"), w)),
    "and": (lambda w: And(["a", w, "b"]), lambda l, w: seq(l("a"), w, l("b"))),
    "xor": (lambda w: "a" ^ w, lambda l, w: lor(l("a"), w)),
    "kw": (lambda w: Keyword("a") + w, lambda l, w: seq(("kw", "a", None), w)),
    "many": (lambda w: ("a" + w)[1:], lambda l, w: ("many", seq(l("a"), w), 1, BIG)),
}


def meaning(l, chars):
    def fix(e):
        if e[0] == "kw":
            return ("kw", e[1], chars)
        return tuple(fix(x) if isinstance(x, tuple) else x for x in e)

    return fix


def string_cases():
    confs = list(itertools.product(LITERALS, CHARS))
    return [(o, i, form) for o in confs for i in [None] + [c for c in confs if c[1] != "1" and c != o] for form in FORMS]


def make_string(outer, inner, form):
    def enter(conf):
        w = Whitespace(" ")
        if LITERALS[conf[0]][0]:
            w.set_literal(LITERALS[conf[0]][0])
        if conf[1] is not None:
            w.set_keyword_chars(conf[1])
        return w

    with enter(outer):
        first = FORMS[form][0](Word("1", exact=1))
        second = None
        if inner:
            with enter(inner):
                second = FORMS[form][0](Word("1", exact=1))
        third = FORMS[form][0](Word("1", exact=1))
        return [e.finalize() for e in (first, second, third) if e is not None]


def one_string(case, inputs, rep):
    _, outer, inner, form = case[:4]
    rep.begin(case)
    ok, parsers = attempt(lambda: make_string(outer, inner, form))
    if not ok:
        rep.violation(case, "can be made", parsers)
        return
    confs = [outer] + ([inner] if inner else []) + [outer]
    for i, (conf, parser) in enumerate(zip(confs, parsers)):
        ast = meaning(None, conf[1])(FORMS[form][1](LITERALS[conf[0]][1], ("word", "1", None, 1, 1)))
        for s in inputs:
            m = peg.Model(s)
            node = m.match(ast, m.skip(0, (" ", None)), (" ", None))
            got = run(parser, s)
            rep.add("states", len(m.memo))
            rep.add("transitions", m.steps)
            rep.add("traces_validated_against_impl")
            want = FAIL if node is None else (conform.settle(s, node[4]), peg.nested([node]))
            have = got if isinstance(got, tuple) else (conform.settle(s, got.end), tree(got))
            if node is not None and node[0] & peg.GROUP and have != FAIL:
                want = (want[0], want[1][0])
            if want != have:
                rep.violation(case[:4] + (s,), want, have, note="grammar %d" % i)
                return
    rep.end()


# ---------------------------------------------------------------- histories
OBJECTS = (" ", "x", "")
OPS = tuple(("in", i) for i in range(3)) + (("use", 0), ("use", 1), ("out",), ("raise",), ("parse",), ("fail",), ("boom",))


class Leave(Exception):
    pass


class Boom(Exception):
    pass


def boom(t):
    raise Boom()


CONFIGURE = (("in", 0), ("in", 1), ("use", 0), ("out",), ("raise",), ("ignore", ";"), ("ignore", "#"), ("own", 0, "#"), ("white", "x"), ("parse",))


def balanced(n, OPS=OPS):
    """every sequence that leaves no more than it entered"""

    def go(depth, left):
        yield ()
        if left == 0:
            return
        for op in OPS:
            if op[0] in ("out", "raise", "ignore", "white") and not depth:
                continue
            d = depth
            if op[0] in ("in", "use"):
                d = depth + (op[0],)
            elif op[0] in ("out", "raise"):
                d = depth[:-1]
            for rest in go(d, left - 1):
                yield (op,) + rest

    return (s for s in go((), n) if len(s) == n)


def history(ops, rep):
    case = ("history", ops)
    objects = [Whitespace(c) for c in OBJECTS]
    own = [(c, ()) for c in OBJECTS]  # what the objects themselves say
    stack = [(peg.STD[0], ())]
    problems = []
    base = whitespaces.CURRENT
    depth = len(whitespaces.whitespace_stack)
    made = []  # (parser, white, depth it was made at) of what was made so far

    def check(i):
        white, ignores = stack[-1]
        if set(whitespaces.CURRENT.white_chars) != set(white):
            problems.append((i, white, whitespaces.CURRENT.white_chars))
            return
        made.append((("a" + Word("b")).finalize(), white + "".join(ignores)))
        for parser, skipped in made if len(made) < 4 else made[:1] + made[-2:]:
            for c in " x;#":
                ok = run(parser, "a" + c + "b") is not FAIL
                if ok != (c in skipped):
                    problems.append((i, skipped, "a%sb is %s" % (c, "accepted" if ok else "refused")))
            if run(parser, "ab") is FAIL:
                problems.append((i, skipped, "ab is refused"))
        rep.add("states")
        rep.add("transitions", 5 * len(made))

    def act(op):
        e = Literal("a") + "b"
        if op[0] == "parse":
            run(e, "ab")
        elif op[0] == "fail":
            run(e, "ac")
        elif op[0] in ("ignore", "white"):
            # for what is made from now on; what was made in this very context before is no longer asked
            white, ignores = stack[-1]
            if op[0] == "ignore":
                whitespaces.CURRENT.add_ignore(Literal(op[1]))
                stack[-1] = white, ignores + (op[1],)
            else:
                whitespaces.CURRENT.set_whitespace(op[1])
                stack[-1] = op[1], ignores
            del made[marks[-1]:]
        elif op[0] == "own":
            objects[op[1]].add_ignore(Literal(op[2]))
            white, ignores = own[op[1]]
            own[op[1]] = white, ignores + (op[2],)
        else:
            try:
                (e / boom).parse("ab")
            except Exception:
                pass  # which kind it arrives as is not our subject

    marks = []

    def enter(n):
        marks.append(len(made))
        stack.append(own[n])

    def leave():
        # what was made inside stays as it is
        stack.pop()
        marks.pop()
        if marks:
            marks[-1] = len(made)

    def go(i):
        while i < len(ops):
            op = ops[i]
            i += 1
            if op[0] == "in":
                enter(op[1])
                try:
                    with objects[op[1]]:
                        check(i)
                        i = go(i)
                except Leave as cause:
                    i = cause.args[0]
                leave()
                check(i)
            elif op[0] == "use":
                enter(op[1])
                c = objects[op[1]].use()
                check(i)
                try:
                    i = go(i)
                except Leave as cause:
                    i = cause.args[0]
                finally:
                    c.release()
                leave()
                check(i)
            elif op[0] == "out":
                return i
            elif op[0] == "raise":
                raise Leave(i)
            else:
                act(op)
                check(i)
        return i

    rep.begin(case, 10)
    try:
        check(0)
        go(0)
        if whitespaces.CURRENT is not base or len(whitespaces.whitespace_stack) != depth:
            problems.append(("end", "the context at the start", "another"))
    except Exception as cause:
        problems.append((type(cause).__name__, str(cause)[:200]))
    finally:
        whitespaces.CURRENT = base
        del whitespaces.whitespace_stack[depth:]
    rep.add("traces_validated_against_impl")
    rep.outcome("history")
    if problems:
        rep.violation(case, "the context at every step", problems[:3])
    rep.end()


DEPTH = {"quick": 4, "thorough": 6}


def shards(tier):
    return F.shards(tier) + [("string", i, 8) for i in range(8)] + [("history", i, 16) for i in range(16)]


def run_shard(shard, tier, rep):
    if shard[0] == "string":
        inputs = list(strings("aAb1 " if tier == "thorough" else "aAb1", 4 if tier == "thorough" else 3))
        for c in part(string_cases(), shard[1], shard[2]):
            one_string(("string",) + c, inputs, rep)
    elif shard[0] == "history":
        for ops in part(balanced(DEPTH[tier]), shard[1], shard[2]):
            history(ops, rep)
        for ops in part(balanced(DEPTH[tier] + 1, CONFIGURE), shard[1], shard[2]):
            history(ops, rep)
    else:
        F.run_shard(shard, tier, rep)


def replay(case, rep):
    if case[0] == "string":
        one_string(case[:4], [case[4]] if len(case) > 4 else ["a1"], rep)
    elif case[0] == "history":
        history(case[1], rep)
    else:
        F.conformance(rep).grammar(case[0], case[1], [case[2]])
