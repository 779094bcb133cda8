# encoding: utf-8
"""
Make the grammars of mc.peg with the public API of mo_parsing, and observe what it answers.

`build(ast, style)`: style "ctor" uses the classes, style "op" uses the operators and methods; both must mean
the same, so most universes are walked in both styles.
"""
from mo_parsing import (
    And, AnyChar, CaselessKeyword, CaselessLiteral, Char, CharsNotIn, CloseMatch, Combine, Empty, Forward,
    Group, Keyword, LineEnd, LineStart, Literal, LookAhead, LookBehind, PrecededBy, Many, MatchAll, MatchFirst, NoMatch,
    NotAny, OneOrMore, Optional, Or, ParseException, ParseResults, Regex, SkipTo, StringEnd, StringStart,
    Suppress, White, Whitespace, Word, WordEnd, WordStart, ZeroOrMore, RecursiveGrammarException,
)
from mc import peg

BIG = peg.BIG


def action(ident):
    fn = peg.ACTIONS[ident]

    def act(tokens):
        return fn([_plain(t) for t in tokens])

    return act


def condition(ident):
    fn = peg.CONDITIONS[ident]

    def cond(tokens):
        return fn([_plain(t) for t in tokens])

    return cond


def _plain(t):
    return t


IGNORES = {
    "hash": lambda: Regex(r"#[^\n]*"),
    "cc": lambda: Regex(r"/\*(?:[^*]|\*(?!/))*\*/"),
    "semi": lambda: Literal(";"),
}


def given(**kw):
    """the arguments that are not what is taken when none is given"""
    return {k: v for k, (v, default) in kw.items() if v != default}


class Builder(object):
    def __init__(self, style="ctor", share=None):
        self.op = style == "op"
        self.forward = None
        self.share = share  # dict: equal sub-expressions are one object
        self.forwards = []

    def __call__(self, a):
        if self.share is not None:
            got = self.share.get(a)
            if got is None:
                got = self.share[a] = getattr(self, "b_" + a[0])(*a[1:])
            return got
        return getattr(self, "b_" + a[0])(*a[1:])

    # terminals
    def b_lit(self, s):
        return Literal(s)

    def b_clit(self, s):
        return CaselessLiteral(s)

    def b_kw(self, s, ident):
        return Keyword(s, ident) if ident is not None else Keyword(s)

    def b_ckw(self, s, ident):
        return CaselessKeyword(s, ident) if ident is not None else CaselessKeyword(s)

    def b_word(self, init, body=None, mn=1, mx=None, ex=""):
        kw = {}
        if mn != 1:
            kw["min"] = mn
        if mx:
            kw["max"] = mx
        if ex:
            kw["exclude"] = ex
        if mn == mx and self.op:
            kw.pop("min", 0), kw.pop("max", 0)
            kw["exact"] = mn
        return Word(init, body, **kw) if body is not None else Word(init, **kw)

    def b_char(self, inc, exc=""):
        if inc:
            return Char(inc, exclude=exc) if exc else Char(inc)
        return Char(exclude=exc)

    def b_notin(self, chars, mn, mx):
        if mn == mx and self.op:
            return CharsNotIn(chars, exact=mn)
        return CharsNotIn(chars, **given(min=(mn, 1), max=(mx or 0, 0)))

    def b_any(self):
        return AnyChar()

    def b_white(self, chars, mn, mx):
        if mn == mx and self.op:
            return White(chars, exact=mn)
        blanks = () if set(chars) == set(" \t\r\n") else (chars,)
        return White(*blanks, **given(min=(mn, 1), max=(mx or 0, 0)))

    def b_empty(self):
        return Empty()

    def b_nomatch(self):
        return NoMatch()

    def b_ls(self):
        return LineStart()

    def b_le(self):
        return LineEnd()

    def b_ss(self):
        return StringStart()

    def b_se(self):
        return StringEnd()

    def b_wstart(self, chars):
        return WordStart() if chars == peg.PRINTABLE else WordStart(chars)

    def b_wend(self, chars):
        return WordEnd() if chars == peg.KWCHARS else WordEnd(chars)

    def b_close(self, s, n):
        return CloseMatch(s, **given(max_mismatches=(n, 1)))

    def b_re(self, p):
        return Regex(p)

    # combinators
    def _lift(self, es):
        """operators want a ParserElement on one side at least; strings stand for literals"""
        out = []
        plain = False
        for i, e in enumerate(es):
            if self.op and e[0] == "lit" and plain:
                out.append(e[1])
            else:
                out.append(self(e))
                plain = True
        return out

    def b_seq(self, *es):
        if not self.op or not es:
            return And([self(e) for e in es])
        es = self._lift(es)
        out = es[0]
        for e in es[1:]:
            out = out + e
        return out

    def b_alt(self, *es):
        if not self.op or not es:
            return MatchFirst([self(e) for e in es])
        es = self._lift(es)
        out = es[0]
        for e in es[1:]:
            out = out | e
        return out

    def b_or(self, *es):
        if not self.op or not es:
            return Or([self(e) for e in es])
        es = self._lift(es)
        out = es[0]
        for e in es[1:]:
            out = out ^ e
        return out

    def b_all(self, *es):
        if not self.op or not es:
            return MatchAll([self(e) for e in es])
        es = self._lift(es)
        out = es[0]
        for e in es[1:]:
            out = out & e
        return out

    def b_many(self, e, mn, mx, stop=None):
        e = self(e)
        kw = {}
        if stop is not None:
            kw["stop_on"] = self(stop)
        if (mn, mx) == (0, BIG) and (stop is not None or not self.op):
            return ZeroOrMore(e, **kw)
        if (mn, mx) == (1, BIG) and (stop is not None or not self.op):
            return OneOrMore(e, **kw)
        if self.op and stop is None:
            if mn == mx == 1 and e.is_annotated():
                return Many(e, exact=1)  # more than what is repeated
            if mn == mx:
                return e * mn
            if mx == BIG:
                return e[mn:]
            return e[mn, mx]
        kw.update(given(min_match=(mn, 0), max_match=(mx, BIG)))
        return Many(e, **kw)

    def b_opt(self, e, *default):
        if default:
            d = list(default)
            return Optional(self(e), default=d[0] if len(d) == 1 else d)
        return Optional(self(e))

    def b_not(self, e):
        return ~self(e) if self.op else NotAny(self(e))

    def b_look(self, e):
        return LookAhead(self(e))

    def b_behind(self, e, retreat=None):
        if retreat is None:
            return LookBehind(self(e))
        return PrecededBy(self(e), retreat=retreat)

    def b_group(self, e):
        return Group(self(e))

    def b_supp(self, e):
        return self(e).suppress() if self.op else Suppress(self(e))

    def b_comb(self, e, sep=""):
        return Combine(self(e), sep) if sep else Combine(self(e))

    def b_name(self, n, e):
        return self(e)(n) if self.op else self(e).set_token_name(n)

    def b_rec(self, body):
        outer = self.forward
        f = self.forward = Forward()
        self.forwards.append(f)
        try:
            built = self(body)
            if self.op:
                f <<= built
            else:
                f << built
        finally:
            self.forward = outer
        return f

    def b_self(self):
        return self.forward

    def b_ws(self, conf, e):
        white, ignore = conf
        with Whitespace(white) as w:
            for i in ignore or ():
                w.add_ignore(IGNORES[i]())
            return self(e)

    def b_skipto(self, e, include, ignore=None, fail=None):
        kw = {}
        if ignore is not None:
            kw["ignore"] = self(ignore)
        if fail is not None:
            kw["fail_on"] = self(fail)
        kw.update(given(include=(bool(include), False)))
        return SkipTo(self(e), **kw)

    def b_act(self, ident, e):
        if self.op:
            return self(e) / action(ident)
        return self(e).add_parse_action(action(ident))

    def b_cond(self, ident, e):
        return self(e).add_condition(condition(ident))


def build(a, style="ctor", share=None):
    return Builder(style, share)(a)


# ---------------------------------------------------------------- observations
FAIL = ("no match",)


def run(parser, s, parse_all=False):
    """-> ParseResults, or a tuple that says why not"""
    try:
        return parser.parse(s, parse_all=True) if parse_all else parser.parse(s)
    except ParseException:
        return FAIL
    except RecursionError:
        return ("RecursionError",)
    except Exception as cause:
        return ("raised", type(cause).__name__, str(cause)[:300])


def is_group(t):
    return isinstance(t, ParseResults)


def tree(r):
    """what iteration gives, all the way down"""
    return [tree(t) if isinstance(t, ParseResults) else t for t in r]


def val(v):
    if isinstance(v, ParseResults):
        return tree(v)
    return v


def attempt(fn):
    """-> (True, value) or (False, description of the exception)"""
    try:
        return True, fn()
    except RecursionError:
        return False, ("RecursionError",)
    except Exception as cause:
        return False, ("raised", type(cause).__name__, str(cause)[:300])


def snapshot(r):
    """everything that can be read from a result"""
    if isinstance(r, ParseResults):
        return (
            r.start, r.end, r.name,
            tuple(snapshot(t) for t in r),
            tuple((k, _read(v)) for k, v in sorted(_items(r))),
        )
    return r


def _items(r):
    return [(k, r[k]) for k in set(r.keys())]


def _read(v):
    return tuple(_read(t) for t in v) if isinstance(v, ParseResults) else v


def outcome(fn):
    """what a call did: its result, or how it failed"""
    try:
        return ("gave", fn())
    except ParseException as cause:
        return ("no match", cause.loc, str(cause))
    except RecursionError:
        return ("RecursionError",)
    except Exception as cause:
        return ("raised", type(cause).__name__, str(cause).split("\n")[0])
