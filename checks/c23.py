# encoding: utf-8
import itertools

from mc import peg, conform
from mc.family import *
from mc.build import Whitespace, val

PID = "C23"
LEVEL = "model_checking"
RULE = (
    "every listed setting of every terminal class, at every position 0..2 of every text of up to L characters over an alphabet chosen for the class "
    "(letters in both cases, punctuation, whitespace, line ends): match, exact end and token against a direct definition of the class"
)
ASSUMPTIONS = [
    "bounds: settings, alphabet and input length as in the plan",
    "letters outside ASCII only as listed (sharp s, Kelvin sign, dotted capital I, e acute)",
    "Char with neither included nor excluded characters, and empty literals, are not settings",
]

B = BIG


def literals():
    for s in ("a", "b", ".", "[", "\\", "^", "-", "]", "ab", "aa", "a.", "$a", "aba", "(a", "A", "Ab", " ", "a b", "\n", "a\nb"):
        yield ("lit", s)
        yield ("clit", s)
    for s in ("ß", "é", "É", "\u212a", "\u0130", "aé"):
        yield ("lit", s)


def keywords():
    for s in ("a", "ab", "b.", "A", "Ab", "a-"):
        for ident in (None, "a", "ab_", "", ".", "ab-]^\\"):
            yield ("kw", s, ident)
            yield ("ckw", s, ident)


def words():
    sets = ("a", "ab", "b-", "^a", "]a\\", "abc", "-", "é", "ABab", "\x06a")
    for init in sets:
        for body in (None, "a", "ab", "-b"):
            for mn, mx in ((1, None), (1, 1), (2, 2), (1, 2), (2, None), (2, 3), (3, 3)):
                if body is not None and len(init) > 2 and mn > 1:
                    continue
                yield ("word", init, body, mn, mx)
    for init in ("ab", "abc", "a-"):
        for body in (None, "ab"):
            for ex in ("a", "b", "c", "ab"):
                for mn, mx in ((1, None), (2, 2), (1, 2)):
                    yield ("word", init, body, mn, mx, ex)


def chars():
    sets = ("", "a", "ab", "abc", "a-c", "]", "^", "^a", "\\", "]-", "-", ".", "\n", " \n", "acegi", "\x05\x06", "\x06\x07", "\x06")
    for inc, exc in itertools.product(sets, sets):
        if inc or exc:
            yield ("char", inc, exc)
    for s in sets[1:]:
        for mn, mx in ((1, 0), (1, 1), (2, 2), (1, 2), (2, 0), (2, 3)):
            yield ("notin", s, mn, mx)
    yield ("any",)


def blanks():
    for s in (" ", "\n", " \n", " \t", " \t\r\n"):
        for mn, mx in ((1, 0), (1, 1), (2, 2), (1, 2), (2, 0), (2, 3)):
            yield ("white", s, mn, mx)


def edges():
    yield from (("ls",), ("le",), ("ss",), ("se",), ("empty",), ("nomatch",))
    for s in ("a", "ab", "a-", "]^", "\\"):
        yield ("wstart", s)
        yield ("wend", s)
    yield ("wstart", peg.PRINTABLE)
    yield ("wend", peg.KWCHARS)


def closes():
    for s in ("a", "ab", "aba", "b.a"):
        for n in (0, 1, 2, 3):
            yield ("close", s, n)


CLASSES = {
    "literals": literals, "keywords": keywords, "words": words, "chars": chars, "blanks": blanks, "edges": edges, "closes": closes,
}


def universe(name):
    if name.startswith("mid-"):
        # in the middle: what follows the terminal starts where it ended
        for t in CLASSES[name[4:]]():
            yield seq(("any",), t, ("opt", ("re", ".")))
        return
    for t in CLASSES[name]():
        yield t
        yield seq(("any",), t)
        if name == "edges":
            yield seq(("any",), ("any",), t)


class Exact(conform.Conformance):
    def grammar(self, ast, style, inputs, share=None):
        with Whitespace(""):
            conform.Conformance.grammar(self, ast, style, inputs, share)

    def details(self, case, node, got, s):
        conform.Conformance.details(self, case, node, got, s)
        ast = case[0]
        if ast[0] == "close":
            # the documented names
            wrong = [i for i, (x, y) in enumerate(zip(node[2][0], ast[1])) if x != y]
            have = val(got["mismatches"])
            if (have if isinstance(have, list) else [have]) != wrong or got["original"] != ast[1]:
                self.rep.violation(case, (wrong, ast[1]), (have, got["original"]), note="mismatches, original")


F = Family(
    {
        "quick": [
            ("literals", "aAb.[\\ \n", 3, 8, 0), ("literals", "éßKİksi", 3, 4, 0), ("keywords", "aAb._-", 3, 8, 0), ("words", "abc-", 4, 16, 0), ("words", "a^]\\é\x06", 3, 16, 0),
            ("chars", "abc-^]", 2, 16, 0), ("chars", "a.\n \\\x05\x06\x07", 2, 16, 0), ("blanks", " \n\ta", 4, 4, 0), ("edges", "ab-\n", 4, 2, 0), ("edges", "a\r\n ]\\", 3, 2, 0), ("closes", "ab.", 4, 2, 0),
            ("mid-literals", "aAb. ", 3, 4, 0), ("mid-keywords", "aAb.", 3, 4, 0), ("mid-words", "ab-", 4, 8, 0), ("mid-chars", "ab-^", 3, 8, 0), ("mid-blanks", " \na", 4, 2, 0), ("mid-edges", "a\n-\r", 4, 2, 0),
        ],
        "thorough": [
            ("literals", "aAb.[\\ \n", 4, 32, 1), ("literals", "éßKİksi", 4, 8, 1), ("keywords", "aAb._-", 5, 64, 1), ("words", "abc-", 6, 128, 1), ("words", "a^]\\é\x06", 5, 128, 1),
            ("chars", "abc-^]", 4, 64, 1), ("chars", "a.\n \\\x05\x06\x07", 3, 64, 1), ("blanks", " \n\ta", 6, 32, 1), ("edges", "ab-\n", 7, 16, 1), ("edges", "a\r\n ]\\", 5, 16, 1), ("closes", "ab.", 6, 16, 1),
            ("mid-literals", "aAb. ", 5, 16, 1), ("mid-keywords", "aAb.", 5, 32, 1), ("mid-words", "ab-", 6, 64, 1), ("mid-chars", "ab-^", 4, 32, 1), ("mid-blanks", " \na", 6, 8, 1), ("mid-edges", "a\n-\r", 6, 8, 1),
        ],
    },
    universe,
    {"recog", "end", "tree"},
    ws=peg.NOWS,
    settle=lambda s, p: p,
    klass=Exact,
)
shards, run_shard, replay = F.shards, F.run_shard, F.replay
