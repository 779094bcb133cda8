# encoding: utf-8
"""character sets"""
import itertools
import sys

from mc.build import attempt
from mc.universe import strings, part
from mo_parsing import *
from mo_parsing import whitespaces, utils
from mo_parsing.utils import parsing_unicode, unicode_set

PID = "C28"
LEVEL = "exploration"
RULE = (
    "every subset of an alphabet of characters with a meaning in regular expressions, neighbours and ordinary ones, given to every terminal that takes a set, against every single character of a wider alphabet; every pair of small subsets as first and following characters of a Word, on every short text; "
    "every predefined set of characters, as a set and as a terminal, against every code point; "
    "every hierarchy of up to 3 unicode sets of a family, defined and read in every order"
)
ASSUMPTIONS = [
    "bounds: the alphabets, the length of texts, the number of sets in a hierarchy",
    "the ranges of the predefined sets are those listed in the check",
]

SPECIAL = "-[\\]^ab ~.\n"
PROBES = sorted(set(SPECIAL) | set(map(chr, range(0, 128))) | set("\x85\xa0é\u0100\u2028\uffff\U0001f600"))


def made(parser):
    with whitespaces.NO_WHITESPACE:
        return parser().finalize()


def accepts(parser, text):
    try:
        return parser.parse(text).end == len(text)
    except ParseException:
        return False


TAKES = {
    "Char": (lambda s: Char(s), lambda s, c: c in s),
    "Char, excluded": (lambda s: Char(exclude=s), lambda s, c: c not in s),
    "Char, some excluded": (lambda s: Char(SPECIAL, exclude=s), lambda s, c: c in SPECIAL and c not in s),
    "Word": (lambda s: Word(s), lambda s, c: c in s),
    "Word, exact": (lambda s: Word(s, exact=1), lambda s, c: c in s),
    "Word, excluded": (lambda s: Word(SPECIAL, exclude=s), lambda s, c: c in SPECIAL and c not in s),
    "CharsNotIn": (lambda s: CharsNotIn(s), lambda s, c: c not in s),
    "CharsNotIn, exact": (lambda s: CharsNotIn(s, exact=1), lambda s, c: c not in s),
    "negated": (lambda s: ~Char(s) + AnyChar(), lambda s, c: c not in s),
    "choice": (lambda s: MatchFirst([Char(c) for c in s] + [Literal("\uffff")] * 2) , lambda s, c: c in s or c == "\uffff"),
    "alternatives": (lambda s: MatchFirst([Literal("\uffff"), Char(s), Word("\ufffe"), Char("\ufffd")]), lambda s, c: c in s or c in "\uffff\ufffe\ufffd"),
    "keyword": (lambda s: Keyword("k", s) + Optional(AnyChar()), None),
    "end": (lambda s: AnyChar() + WordEnd(s + "k") + Optional(AnyChar()), None),
    "start": (lambda s: WordStart(s) + AnyChar(), lambda s, c: c in s),
    "not white": (lambda s: Whitespaced(s), None),
}


class Whitespaced(object):
    """the set as what is skipped"""

    def __init__(self, chars):
        with Whitespace(chars):
            self.e = Literal("k") + Literal("k")

    def finalize(self):
        return self.e.finalize()


def subset(number):
    return "".join(c for i, c in enumerate(SPECIAL) if number >> i & 1)


def one_set(kind, s, rep):
    fn, means = TAKES[kind]
    case = ("set", kind, s)
    rep.begin(case, 60)
    ok, parser = attempt(lambda: made(lambda: fn(s)))
    if not ok:
        rep.violation(case, "can be made", parser)
        return
    rep.add("sets")
    for c in PROBES:
        rep.add("evaluations")
        if kind in ("keyword", "end"):
            if c == "k" or kind == "end" and c == "\n":
                continue  # a line end is the end of a word
            want, have = c not in s, accepts(parser, "k" + c)
        elif kind == "not white":
            if c == "k":
                continue
            want, have = c in s, accepts(parser, "k" + c + "k")
        else:
            want, have = means(s, c), accepts(parser, c)
        if want != have:
            rep.violation(case, (c, want), (c, have))
            return
        rep.outcome("%s: %s" % (kind, "in" if want else "out"))
        if want:
            rep.add("distinct_nontrivial")
    rep.end()


# ---------------------------------------------------------------- first and following characters
PAIR = "-]\\^ab"


def pairs():
    subsets = ["".join(c for i, c in enumerate(PAIR) if n >> i & 1) for n in range(1, 2 ** len(PAIR))]
    return itertools.product(subsets, subsets)


PAIR_TEXTS = list(strings(PAIR + "c", 3, 2))


def one_pair(first, rest, texts, rep):
    case = ("pair", first, rest)
    rep.begin(case, 60)
    parser = made(lambda: Word(first, rest))
    few = made(lambda: Word(first, rest, min=2, max=2))
    rep.add("sets")
    for t in texts:
        rep.add("evaluations")
        want = t[0] in first and all(c in rest for c in t[1:])
        have = accepts(parser, t)
        if want:
            rep.add("distinct_nontrivial")
        if want == have and len(t) == 2:
            have = accepts(few, t)
        if want != have:
            rep.violation(case, (t, want), (t, have))
            return
        rep.outcome("word: %s" % want)
    rep.end()


# ---------------------------------------------------------------- predefined sets
KANJI = [(0x4E00, 0x9FBF), (0x3000, 0x303F)]
HIRAGANA = [(0x3040, 0x309F)]
KATAKANA = [(0x30A0, 0x30FF)]
CHINESE = [(0x4E00, 0x9FFF), (0x3000, 0x303F)]
KOREAN = [(0xAC00, 0xD7AF), (0x1100, 0x11FF), (0x3130, 0x318F), (0xA960, 0xA97F), (0xD7B0, 0xD7FF), (0x3000, 0x303F)]
JAPANESE = KANJI + HIRAGANA + KATAKANA
GREEK = [
    (0x0370, 0x03FF), (0x1F00, 0x1F15), (0x1F18, 0x1F1D), (0x1F20, 0x1F45), (0x1F48, 0x1F4D), (0x1F50, 0x1F57), (0x1F59, 0x1F59), (0x1F5B, 0x1F5B), (0x1F5D, 0x1F5D), (0x1F5F, 0x1F7D), (0x1F80, 0x1FB4),
    (0x1FB6, 0x1FC4), (0x1FC6, 0x1FD3), (0x1FD6, 0x1FDB), (0x1FDD, 0x1FEF), (0x1FF2, 0x1FF4), (0x1FF6, 0x1FFE),
]
UNICODE = {
    "": [(32, sys.maxunicode)],
    "Latin1": [(0x20, 0x7E), (0xA0, 0xFF)],
    "LatinA": [(0x100, 0x17F)],
    "LatinB": [(0x180, 0x24F)],
    "Greek": GREEK,
    "Cyrillic": [(0x400, 0x4FF)],
    "Chinese": CHINESE,
    "Japanese": JAPANESE,
    "Japanese.Kanji": KANJI,
    "Japanese.Hiragana": HIRAGANA,
    "Japanese.Katakana": KATAKANA,
    "Korean": KOREAN,
    "CJK": CHINESE + JAPANESE + KOREAN,
    "Thai": [(0x0E01, 0x0E3A), (0x0E3F, 0x0E5B)],
    "Arabic": [(0x600, 0x61B), (0x61E, 0x77F)],
    "Hebrew": [(0x590, 0x5FF)],
    "Devanagari": [(0x900, 0x97F), (0xA8E0, 0xA8FF)],
    "العربية": [(0x600, 0x61B), (0x61E, 0x77F)],
    "中文": CHINESE,
    "кириллица": [(0x400, 0x4FF)],
    "Ελληνικά": GREEK,
    "עִברִית": [(0x590, 0x5FF)],
    "日本語": JAPANESE,
    "Japanese.漢字": KANJI,
    "Japanese.カタカナ": KATAKANA,
    "Japanese.ひらがな": HIRAGANA,
    "한국어": KOREAN,
    "ไทย": [(0x0E01, 0x0E3A), (0x0E3F, 0x0E5B)],
    "देवनागरी": [(0x900, 0x97F), (0xA8E0, 0xA8FF)],
}
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
PLAIN = {
    "alphas": UPPER + UPPER.lower(),
    "nums": "0123456789",
    "alphanums": UPPER + UPPER.lower() + "0123456789",
    "hexnums": "0123456789ABCDEFabcdef",
    "printables": "".join(map(chr, range(33, 127))),
}
PARTS = {
    "alphas": lambda c: c.isalpha(),
    "nums": lambda c: c.isdigit(),
    "alphanums": lambda c: c.isalpha() or c.isdigit(),
    "printables": lambda c: not c.isspace(),
}


def members(ranges, attribute):
    codes = set()
    for a, b in ranges:
        codes.update(range(a, b + 1))
    return {c for c in map(chr, codes) if PARTS[attribute](c)}


def predefined(name, attribute):
    if name is None:
        return set(PLAIN[attribute]), getattr(utils, attribute)
    at = parsing_unicode
    for n in name.split("."):
        if n:
            at = getattr(at, n)
    return members(UNICODE[name], attribute), getattr(at, attribute)


def all_predefined():
    for a in PLAIN:
        yield None, a
    for name in UNICODE:
        for a in PARTS:
            yield name, a


def one_predefined(name, attribute, rep, deep):
    case = ("predefined", name, attribute)
    rep.begin(case, 300)
    ok, both = attempt(lambda: predefined(name, attribute))
    if not ok:
        rep.violation(case, "a set of characters", both)
        return
    want, have = both
    if set(have) != want or len(have) != len(want):
        bad = sorted(set(have) ^ want)[:5]
        rep.violation(case, "%d characters" % len(want), "%d, different in %r" % (len(have), bad))
        return
    rep.add("sets")
    rep.outcome("set of %d" % len(want))
    if not want:
        return
    word, char = made(lambda: OneOrMore(Char(have))), made(lambda: Word(have))
    limit = sys.maxunicode + 1 if deep or name != "" else 0x3000
    if not deep and name != "":
        limit = 0x10000
    # runs of characters that are all in, or all out
    codes = [i for i in range(limit) if not 0xD800 <= i < 0xE000]
    for kind, fn in (("Word", lambda: Word(have)), ("Char", lambda: OneOrMore(Char(have)))):
        parser = made(fn)
        text = "".join(map(chr, codes))
        found = set()
        for _, b, e in made(lambda: Word(have) if kind == "Word" else Char(have)).scan_string(text):
            found.update(text[b:e])
        rep.add("evaluations", len(codes))
        expected = want & set(text)
        if found != expected:
            bad = sorted(found ^ expected)[:5]
            rep.violation(case, "accepts %d characters" % len(expected), "%d, different in %r" % (len(found), bad), note=kind)
            return
        rep.add("distinct_nontrivial", len(expected))
    rep.end()


# ---------------------------------------------------------------- hierarchies
RANGES = ([(0x61, 0x63)], [(0x62, 0x64), (0x31,)], [(0x20, 0x22), (0x62,)], [])
BASES = ((), (0,), (1,), (0, 1), (1, 0))  # OF THE SETS DEFINED BEFORE


def hierarchies(n):
    for ranges in itertools.product(range(len(RANGES)), repeat=n):
        for bases in itertools.product(BASES, repeat=n):
            if all(all(b < i for b in bs) for i, bs in enumerate(bases)):
                yield ranges, bases


def reads(n):
    """every order of definitions and readings: define the next, or read an attribute of one defined"""

    def go(defined, left):
        if defined == n:
            if left == 0:
                yield ()
        else:
            for rest in go(defined + 1, left):
                yield (("define",),) + rest
        if left:
            for i in range(defined):
                for a in ("alphas", "alphanums") if n > 2 else ("alphas", "nums", "alphanums", "printables"):
                    for rest in go(defined, left - 1):
                        yield ((i, a),) + rest

    return go


def one_hierarchy(ranges, bases, ops, rep):
    case = ("hierarchy", ranges, bases, ops)
    rep.begin(case)
    classes, effective = [], []

    def define():
        i = len(classes)
        up = tuple(classes[b] for b in bases[i])
        classes.append(type("U%d" % i, up or (unicode_set,), {"_ranges": RANGES[ranges[i]]}))
        codes = {c for r in RANGES[ranges[i]] for c in range(r[0], r[-1] + 1)}
        for b in bases[i]:
            codes |= effective[b]
        effective.append(codes)

    rep.add("evaluations")
    read = 0
    for op in ops:
        if op[0] == "define":
            try:
                define()
            except TypeError:
                rep.end()
                return  # no such order of bases
            continue
        i, attribute = op
        want = sorted(c for c in map(chr, effective[i]) if PARTS[attribute](c))
        ok, have = attempt(lambda: sorted(getattr(classes[i], attribute)))
        if not ok or have != want:
            rep.violation(case, (op, want), (op, have))
            return
        read += 1
        rep.outcome("%s of %d" % (attribute, len(want)))
    if read > 1:
        rep.add("distinct_nontrivial")
    rep.end()


PLAN = {
    "quick": [("sets", 0, 32), ("pairs", 2, 8), ("predefined", 0, 16), ("hierarchy", (2, 3), 16), ("hierarchy", (3, 2), 16)],
    "thorough": [("sets", 0, 64), ("pairs", 3, 32), ("predefined", 1, 32), ("hierarchy", (2, 4), 64), ("hierarchy", (3, 3), 128)],
}


def shards(tier):
    return [(i, j, row[2]) for i, row in enumerate(PLAN[tier]) for j in range(row[2])]


def run_shard(shard, tier, rep):
    i, j, k = shard
    kind, n, _ = PLAN[tier][i]
    if kind == "sets":
        for number in range(1 + j, 2 ** len(SPECIAL), k):
            for t in TAKES:
                one_set(t, subset(number), rep)
    elif kind == "pairs":
        texts = [t for t in PAIR_TEXTS if len(t) <= n]
        for first, rest in part(pairs(), j, k):
            one_pair(first, rest, texts, rep)
    elif kind == "predefined":
        for name, a in part(all_predefined(), j, k):
            one_predefined(name, a, rep, n)
    else:
        size, length = n
        orders = list(reads(size)(0, length))
        for ranges, bases in part(hierarchies(size), j, k):
            for ops in orders:
                one_hierarchy(ranges, bases, ops, rep)
    if j == 0:
        rep.sample("%s %r" % (kind, n))


def replay(case, rep):
    if case[0] == "set":
        one_set(case[1], case[2], rep)
    elif case[0] == "pair":
        one_pair(case[1], case[2], PAIR_TEXTS, rep)
    elif case[0] == "predefined":
        one_predefined(case[1], case[2], rep, True)
    else:
        one_hierarchy(case[1], case[2], tuple(case[3]), rep)
