# encoding: utf-8
"""helpers that describe lists and structures"""
import itertools

from mc import peg, conform
from mc.build import Builder, given, And, Group, Suppress, Literal, Word, OneOrMore, ZeroOrMore, attempt, run, tree, val, FAIL
from mc.family import *
from mc.universe import trees, strings, part
from mo_parsing import Dict, OpenDict
from mo_parsing.infix import one_of
from mo_parsing.helpers import (
    counted_array, delimited_list, dict_of, located_expr, matchPreviousExpr, matchPreviousLiteral, nested_expr,
    originalTextFor, ungroup, token_map, quoted_string, matchOnlyAtCol, upcase_tokens, downcase_tokens,
)

PID = "C18"
LEVEL = "model_checking"
RULE = (
    "every helper over every expression of up to N nodes as its element (helpers of helpers included), in every context of the list, on every text of up to L characters or tokens, against its meaning in the reference"
)
ASSUMPTIONS = [
    "bounds: size of the element expressions, contexts, alphabet and text length as in the plan",
    "ungroup is applied to groups only; what is repeated by matchPrevious... is matched directly before, in the same sequence",
    "element expressions match at least one character",
]

A, B, C, X = lit("a"), lit("b"), lit(","), lit("x")
DIGIT = word("012", None, 1, 1)


class Model(peg.Model):
    __slots__ = []

    def same(self, e, a, p, ws, env):
        return self.match(keep(e), p, ws, env)

    def m_dlist(self, a, p, ws, env):
        _, e, sep, combine = a
        if combine:
            return self.same(comb(seq(e, ("many", seq(sep, e), 0, BIG))), a, p, ws, env)
        return self.same(seq(e, ("many", seq(supp(sep), e), 0, BIG)), a, p, ws, env)

    def m_counted(self, a, p, ws, env):
        _, e, count = a
        r = self.match(keep(COUNTS[count][0]), p, ws, env)
        if r is None:
            return None
        n = COUNTS[count][1](self.s[p:r[4]])
        if n == 0:
            return [PLAIN, "", [[peg.GROUP, "", [], r[4], r[4]]], p, r[4]]
        at = self.skip(r[4], ws)
        q = self.match(keep(group(("many", e, n, n))), at, ws, env)
        if q is None:
            return None
        return [PLAIN, "", [q], p, q[4]]

    def m_nested(self, a, p, ws, env):
        _, opener, closer, content, ignore = a
        kids = []
        if not self.s.startswith(opener, p):
            return None
        q = p + len(opener)
        while True:
            at = self.skip(q, ws)
            r = None
            if ignore is not None:
                r = self.match(IGNORE[ignore], at, ws, env)
            if r is None:
                r = self.match(a, at, ws, env)
            if r is None:
                if content is None:
                    r = self.text(at, opener, closer, ignore, ws)
                else:
                    r = self.match(content, at, ws, env)
            if r is None or r[4] == at:
                break
            kids.append(r)
            q = r[4]
        q = self.skip(q, ws)
        if not self.s.startswith(closer, q):
            return None
        return [peg.GROUP, "", kids, p, q + len(closer)]

    def text(self, p, opener, closer, ignore, ws):
        """up to whitespace, a delimiter or something ignored"""
        q = p
        single = len(opener) == len(closer) == 1
        while q < self.n and self.s[q] not in ws[0]:
            if ignore is not None and self.match(IGNORE[ignore], q, peg.NOWS, None) is not None:
                break
            if self.s.startswith(opener, q) or self.s.startswith(closer, q):
                break
            q += 1
        if q > p:
            return self._tok(p, q)

    def m_quoted(self, a, p, ws, env):
        """a string in one of the quotes: to the first quote that is neither doubled nor escaped, in the same line"""
        if p < self.n and self.s[p] in a[1]:
            quote = self.s[p]
            q = p + 1
            while q < self.n and self.s[q] not in "\r\n":
                if self.s[q] == "\\":
                    q += 2
                elif self.s[q] == quote:
                    if self.s[q + 1 : q + 2] != quote:
                        return self._tok(p, q + 1)
                    q += 2
                else:
                    q += 1

    def m_dictof(self, a, p, ws, env):
        _, k, v = a
        r = self.same(("many", group(seq(k, v)), 1, BIG), a, p, ws, env)
        if r is not None:
            return [peg.GROUP, "", r[2] + self.entries(r[2]), r[3], r[4]]

    def m_opendict(self, a, p, ws, env):
        _, k, v = a
        r = self.same(("many", group(seq(k, v)), 0, BIG), a, p, ws, env)
        if r is not None:
            return [PLAIN, "", r[2] + self.entries(r[2]), r[3], r[4]]

    def entries(self, groups):
        out = []
        for g in groups:
            kv = list(peg.items(g[2]))
            if kv:
                out.append([peg.HIDDEN, kv[0] if isinstance(kv[0], str) else "?", kv[1:], g[3], g[4]])
        return out

    def m_orig(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is None:
            return None
        kids = [self.s[p : r[4]]]
        for n in dict.fromkeys(peg.names_of([r])):
            kids.append([peg.HIDDEN, n, list(peg.named([r], n)), r[3], r[4]])
        return [peg.GROUP, "", kids, p, r[4]]

    def m_ungroup(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        return r and [PLAIN, "", [r], r[3], r[4]]

    def m_located(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is None:
            return None
        # the value is itself a group
        kids = [
            [PLAIN, "locn_start", [p], p, p],
            [peg.GROUP, "value", [r], p, r[4]],
            [PLAIN, "locn_end", [r[4]], r[4], r[4]],
        ]
        return [peg.GROUP, "", kids, p, r[4]]

    def m_tmap(self, a, p, ws, env):
        r = self.match(a[2], p, ws, env)
        if r is not None:
            return [r[0], r[1], [MAPS[a[1]](t) for t in peg.items(r[2])], r[3], r[4]]

    def m_again(self, a, p, ws, env):
        """e, then something, then the same again"""
        _, e, mid, how = a
        r = self.match(e, p, ws, env)
        if r is None:
            return None
        flat = list(peg.leaves([r]))
        if how == "lit":
            if len(flat) == 1:
                rep = lit(flat[0])
            elif flat:
                rep = seq(*map(lit, flat))
            else:
                rep = ("empty",)
            return self.match(keep(seq(e, mid, rep)), p, ws, env)
        got = self.match(keep(seq(e, mid, e)), p, ws, env)
        if got is None or list(peg.leaves([got[2][-1]])) != flat:
            return None
        return got

    def m_oneof(self, a, p, ws, env):
        _, words, caseless, keyword = a
        fold = str.lower if caseless else str
        best = None
        for w in words:
            q = p + len(w)
            if fold(self.s[p:q]) == fold(w) and not (keyword and self.s[q : q + 1] and self.s[q] in peg.KWCHARS):
                if best is None or len(w) > len(best):
                    best = w
        if best is not None:
            return [PLAIN, "", [best], p, p + len(best)]

    def m_col(self, a, p, ws, env):
        r = self.match(a[2], p, ws, env)
        if r is not None and p - (self.s.rfind("\n", 0, p) + 1) + 1 == a[1]:
            return r


PLAIN = peg.PLAIN
KEPT = {}


def keep(e):
    return KEPT.setdefault(e, e)


peg.KINDS.update(n[2:] for n in dir(Model) if n.startswith("m_"))

COUNTS = {
    "int": (word("0123456789"), int),
    "ones": (word("1", None), len),
    "bin": (word("01"), lambda t: int(t, 2)),
}
IGNORE = {"quoted": ("quoted", "'\""), "hash": ("re", r"#\S*")}
MAPS = {"upper": str.upper, "len": len, "upcase": str.upper, "downcase": str.lower, "twice": lambda t: t * 2}


class HelperBuilder(Builder):
    def b_dlist(self, e, sep, combine):
        kw = {"combine": True} if combine else {}
        if sep == C:
            return delimited_list(self(e), **kw)
        return delimited_list(self(e), sep[1] if self.op and sep[0] == "lit" else self(sep), **kw)

    def b_counted(self, e, count):
        if count == "int" and self.op:
            return counted_array(self(e))
        fn = COUNTS[count][1]
        return counted_array(self(e), int_expr=self(COUNTS[count][0]) / (lambda t: fn(t[0])))

    def b_nested(self, opener, closer, content, ignore):
        kw = {}
        if content is not None:
            kw["content"] = self(content)
            if self.op:
                opener, closer = Literal(opener), Literal(closer)
        if ignore != "quoted":
            kw["ignore_expr"] = None if ignore is None else self(IGNORE[ignore])
        return nested_expr(opener, closer, **kw)

    def b_dictof(self, k, v):
        if self.op:
            return dict_of(self(k), self(v))
        return Dict(OneOrMore(Group(self(k) + self(v))))

    def b_opendict(self, k, v):
        return OpenDict(ZeroOrMore(Group(self(k) + self(v))))

    def b_orig(self, e):
        return originalTextFor(self(e), as_string=False) if self.op else originalTextFor(self(e))

    def b_ungroup(self, e):
        return ungroup(Group(self(e)))

    def b_located(self, e):
        return located_expr(self(e))

    def b_tmap(self, ident, e):
        fn = {"upcase": upcase_tokens, "downcase": downcase_tokens, "twice": token_map(lambda t, n: t * n, 2)}.get(ident)
        return self(e) / (fn or token_map(MAPS[ident]))

    def b_again(self, e, mid, how):
        first = self(e).copy()
        again = (matchPreviousLiteral if how == "lit" else matchPreviousExpr)(first)
        return And([first, self(mid), again])

    def b_oneof(self, words, caseless, keyword):
        return one_of(" ".join(words) if self.op else list(words), **given(caseless=(caseless, False), as_keyword=(keyword, False)))

    def b_col(self, n, e):
        return self(e).add_parse_action(matchOnlyAtCol(n), callDuringTry=True)


LEAVES = (A, word("ab"), ("name", "x", B))
UNARY = (opt, many(1, 2), many(0, BIG), group, name("y"), supp, comb, lambda e: ("act", "upper", e), lambda e: ("cond", "two", e))


def elements(n):
    return [e for k in range(1, n + 1) for e in trees(k, LEAVES, UNARY, (seq, alt), ()) if not peg.nullable(e)]


def helpers(e, kinds):
    """every helper of these kinds over e"""
    if "list" in kinds:
        for sep in (C, B, word("+-"), seq(C, opt(C)), alt(lit(",,"), C)):
            for combine in (False, True):
                yield ("dlist", e, sep, combine)
    if "count" in kinds:
        for c in COUNTS:
            yield ("counted", e, c)
    if "misc" in kinds:
        yield ("orig", e)
        yield ("ungroup", e)
        yield ("located", e)
        if e[0] == "word":
            for m in MAPS:
                yield ("tmap", m, ("many", e, 1, BIG))
        for n in (1, 2, 3):
            yield ("col", n, e)
    if "again" in kinds and not peg.contains(e, ("act", "cond", "supp", "opt", "again")):
        for mid in (C, ("empty",), opt(X)):
            for how in ("lit", "expr"):
                yield ("again", e, mid, how)


CONTEXT = (
    lambda e: e,
    lambda e: seq(X, e),
    lambda e: seq(e, X),
    lambda e: seq(e, opt(C), opt(A)),
    lambda e: group(e),
    lambda e: seq(group(e), opt(X)),
    lambda e: ("many", e, 0, BIG),
    lambda e: ("many", seq(e, opt(X)), 1, 2),
    lambda e: alt(seq(e, X), A),
    lambda e: alt(X, e),
    lambda e: ("or", e, seq(A, opt(X))),
    lambda e: opt(e),
    lambda e: look(e),
    lambda e: neg(e),
    lambda e: ("name", "z", e),
    lambda e: seq(("name", "z", e), opt(X)),
    lambda e: supp(e),
    lambda e: ("skipto", e, True),
    lambda e: ("rec", alt(seq(X, ("self",)), e)),
)


def nesting(n, pairs=(("(", ")"), ("<", ">"), ("((", "))"), ("(", "))"), ("a", "b"))):
    contents = (None,) + tuple(elements(n))
    for o, c in pairs:
        for content in contents:
            for ignore in (None, "quoted", "hash"):
                yield ("nested", o, c, content, ignore)


def dicts(n):
    keys = (word("ab"), A, seq(word("ab"), supp(lit(":"))), comb(seq(A, opt(B))), alt(A, B), supp(A), ("act", "upper", word("ab")))
    values = tuple(elements(n)) + (seq(lit(":"), word("ab")), word("12"), opt(word("12")), seq(supp(lit(":")), word("12")), ("name", "v", word("12")), group(word("12")))
    for k in keys:
        for v in values:
            yield ("dictof", k, v)
            yield ("opendict", k, v)
            yield seq(("opendict", k, v), opt(X))
            yield seq(X, ("dictof", k, v), opt(X))
            yield group(seq(X, ("opendict", k, v)))
            yield ("many", seq(("dictof", k, v), X), 0, BIG)


WORDS = ("a", "b", "ab", "aB", "abb", "A", "a-", "-", "]", "^", "a.b", ".", "|a", "\\")


def choices(n):
    for k in range(1, n + 1):
        for words in itertools.permutations(WORDS if k < 3 else WORDS[:7], k):
            plain = all(c in peg.KWCHARS for w in words for c in w)
            for caseless in (False, True):
                for keyword in (False, True) if plain else (False,):
                    e = ("oneof", words, caseless, keyword)
                    yield e
                    if k < 3:
                        yield seq(e, e)
                        yield ("many", e, 1, BIG)
                        yield seq(A, opt(e), B)
                        yield seq(neg(e), ("any",))
                        yield comb(seq(e, word("-ab")))


def universe(kind):
    k, kinds, n = kind
    if k == "one":
        return (h for e in elements(n) for h in helpers(e, kinds))
    if k == "context":
        return (x for e in elements(n) for h in helpers(e, kinds) for c in CONTEXT for x in [c(h)] if ok(x))
    if k == "two":
        return (g for e in elements(n) for h in helpers(e, EVERY) for g in helpers(h, kinds) if ok(g))
    if k == "nested":
        return nesting(n)
    if k == "nestmulti":
        return nesting(n, (("((", "))"), ("((", ")"), ("(", "))"), ("a((", "))")))
    if k == "nestin":
        return (x for e in nesting(n) for c in CONTEXT for x in [c(e)] if ok(x))
    if k == "oneof":
        return choices(n)
    if k == "dict":
        return dicts(n)
    raise Exception()


EVERY = ("list", "count", "misc", "again")


def ok(e):
    if e[0] == "dlist" and e[3] or e[0] == "again":
        # only texts are joined and found again
        return not numbers(e[1])
    return all(ok(x) for x in peg.subs(e))


def numbers(e):
    return e[0] == "located" or e[:2] == ("tmap", "len") or any(map(numbers, peg.subs(e)))


class Helped(conform.Conformance):
    MODEL = Model
    BUILDER = HelperBuilder


F = Family(
    {
        "quick": [
            (("one", "list", 1), "ab, -", 4, 8, 1), (("one", "list", 2), "ab, ", 4, 16, 0), (("context", "list", 1), "ab, x", 3, 16, 0),
            (("one", "count", 1), "ab 0123", 3, 4, 1), (("one", "count", 1), "a 2", 6, 4, 1), (("one", "count", 2), "a 012", 4, 8, 0), (("context", "count", 1), "ab12x ", 3, 16, 0),
            (("one", "misc", 2), "ab \n", 4, 8, 1), (("context", "misc", 1), "ab x", 4, 16, 0),
            (("one", "again", 2), "ab, ", 4, 8, 1), (("context", "again", 1), "ab x", 4, 16, 0),
            (("two", EVERY, 1), "a,2 ", 3, 16, 0),
            (("nested", "", 1), "(a) <>", 4, 8, 0), (("nested", "", 1), "(a)'\"#", 4, 8, 0), (("nestin", "", 1), "(a)x", 3, 16, 0), (("nestmulti", "", 1), ("((", "))", "a", " "), 6, 8, 0), (("nestmulti", "", 1), ("((", ")", "a", "'"), 5, 8, 0),
            (("dict", "", 1), ("a", "b", ":", "1", " "), 4, 16, 0),
            (("oneof", "", 2), "abB-]^.|", 2, 8, 0), (("oneof", "", 3), "abA", 3, 16, 0),
        ],
        "thorough": [
            (("one", "list", 2), "ab, -", 5, 64, 1), (("one", "list", 3), "ab, ", 4, 256, 0), (("context", "list", 1), "ab, x", 5, 64, 1), (("context", "list", 2), "ab, x", 4, 256, 0),
            (("one", "count", 2), "ab 012", 5, 64, 1), (("one", "count", 1), "a 12", 7, 32, 1), (("context", "count", 1), "ab12x ", 5, 128, 0), (("context", "count", 2), "a12x ", 4, 128, 0),
            (("one", "misc", 3), "ab \n", 4, 256, 0), (("context", "misc", 2), "ab x", 4, 256, 0),
            (("one", "again", 3), "ab, ", 5, 256, 0), (("context", "again", 2), "ab x,", 4, 256, 0),
            (("two", EVERY, 1), "a,2 ", 5, 256, 0), (("two", EVERY, 2), "a,2 ", 3, 256, 0),
            (("nested", "", 1), "(a) <>", 6, 256, 0), (("nested", "", 2), "(a)'\"#", 5, 256, 0), (("nestin", "", 1), "(a) x", 5, 256, 0), (("nestmulti", "", 2), ("((", "))", "a", " ", "b"), 7, 256, 0), (("nestmulti", "", 2), ("((", ")", "a", "'", "#", " "), 6, 256, 0), (("nestmulti", "", 1), "(a) ", 7, 128, 0),
            (("dict", "", 1), ("a", "b", ":", "1", " "), 6, 256, 0), (("oneof", "", 2), "abBA-]^.|\\ ", 3, 64, 1), (("oneof", "", 3), "abB.- ", 4, 256, 0), (("oneof", "", 4), "abB.", 3, 256, 0), (("dict", "", 2), ("a", "b", ":", "1", " "), 4, 256, 1),
        ],
    },
    universe,
    {"recog", "end", "tree", "names", "list"},
    names=("x", "y", "z", "v", "a", "b", "ab", "A", "value", "locn_start", "locn_end"),
    klass=Helped,
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
