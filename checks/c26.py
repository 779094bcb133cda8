# encoding: utf-8
"""HTML tags, attributes, entities"""
import itertools

from mc.build import attempt, run, FAIL
from mc.universe import strings, part
from mo_parsing import ParseException, ParseResults, Word, Literal, OneOrMore, SkipTo, CaselessKeyword, Keyword
from mo_parsing.helpers import (
    makeHTMLTags, with_attribute, with_class, anyOpenTag, anyCloseTag, commonHTMLEntity, replaceHTMLEntity, stripHTMLTags,
)

PID = "C26"
LEVEL = "model_checking"
RULE = (
    "every text of up to L pieces of tags, and every assembly of a tag from names, attributes, quotings and spacings, with every single character left out, at every place where a tag may start: "
    "a hand written tag scanner against the open and close tag expressions, their attributes and names, with_attribute and with_class for every condition of the list; "
    "every text of up to L pieces of entities against replacing by hand"
)
ASSUMPTIONS = [
    "bounds: pieces, length of texts and number of attributes as in the plan",
    "the scanner reads an unquoted value to the next white space or >, and takes an unfinished quoted value as an unquoted one",
    "conditions on attributes that occur more than once, and attributes with the names of the parts of the result (tag, empty), are not compared",
]

WHITE = " \n\r\t"
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = "0123456789"
IDENT = ALPHA + DIGIT + "_$"


def skip(s, p):
    while p < len(s) and s[p] in WHITE:
        p += 1
    return p


def run_of(s, p, first, rest):
    if p >= len(s) or s[p] not in first:
        return None
    q = p + 1
    while q < len(s) and s[q] in rest:
        q += 1
    return q


def tag_name(s, p, name):
    """-> end of the name, text of the result"""
    if name is None:
        q = run_of(s, p, ALPHA, ALPHA + DIGIT + "_:")
        return None if q is None else (q, s[p:q])
    q = p + len(name)
    if s[p:q].lower() != name.lower() or s[q : q + 1] and s[q] in IDENT:
        return None
    return q, name


def quoted(s, p):
    """end of the quoted string that starts here; quotes may be doubled or escaped, lines end it"""
    quote = s[p]
    q = p + 1
    while q < len(s) and s[q] not in "\r\n":
        if s[q] == "\\":
            if s[q + 1 : q + 2] == "x" and s[q + 2 : q + 3] not in tuple("0123456789abcdefABCDEF"):
                return None
            q += 2
        elif s[q] == quote:
            if s[q + 1 : q + 2] != quote:
                return q + 1
            q += 2
        else:
            q += 1
    return None


def open_tag(s, p, name):
    """-> end, tag, [(name, value or None)], empty"""
    if s[p : p + 1] != "<":
        return None
    found = tag_name(s, skip(s, p + 1), name)
    if found is None:
        return None
    p, tag = found
    attributes = []
    while True:
        at = skip(s, p)
        q = run_of(s, at, ALPHA, ALPHA + DIGIT + "_-:")
        if q is None:
            break
        p, value = q, None
        r = skip(s, q)
        if s[r : r + 1] == "=":
            r = skip(s, r + 1)
            end = quoted(s, r) if s[r : r + 1] in ("'", '"') else None
            if end is not None:
                value, p = s[r + 1 : end - 1], end
            else:
                end = r
                while end < len(s) and "!" <= s[end] <= "~" and s[end] != ">":
                    end += 1
                if end > r:
                    value, p = s[r:end], end
        attributes.append((s[at:q].lower(), value))
    p = skip(s, p)
    empty = s[p : p + 1] == "/"
    if empty:
        p = skip(s, p + 1)
    if s[p : p + 1] != ">":
        return None
    return p + 1, tag, attributes, empty


def close_tag(s, p, name):
    if s[p : p + 2] != "</":
        return None
    found = tag_name(s, skip(s, p + 2), name)
    if found is None:
        return None
    q = skip(s, found[0])
    if s[q : q + 1] != ">":
        return None
    return q + 1, "</" + found[1] + ">"


def tokens_of(found):
    end, tag, attributes, empty = found
    return [tag] + [[n] if v is None else [n, v] for n, v in attributes] + [empty]


ANY = with_attribute.ANY_VALUE
CONDITIONS = (
    {"b": "1"},
    {"b": ANY},
    {"class": "g h"},
    {"class": ANY, "b": "1"},
    {"x-y": ""},
    {"n:s": "a>b", "b": ANY},
    {"c": "1"},
)


def meets(attributes, condition):
    d = dict(attributes)
    for n, v in condition.items():
        if n not in d or v is not ANY and (d[n] or "") != v:
            return False
    return True


class Tags(object):
    def __init__(self, tag):
        self.tag = tag
        if tag is None:
            o, c = anyOpenTag, anyCloseTag
            title = "AnyTag"
        else:
            o, c = makeHTMLTags(tag)
            title = "".join(tag.replace(":", " ").title().split())
        self.title = title
        self.seen = []
        self.open = o.finalize()
        self.close = c.finalize()
        self.watched = o.add_parse_action(self.watch).finalize()
        self.held = [(c, o.add_parse_action(with_attribute(**c)).finalize()) for c in CONDITIONS]
        self.held.append(({"class": "g h"}, o.add_parse_action(with_class("g h")).finalize()))
        self.held.append(({"n:class": "1"}, o.add_parse_action(with_class("1", "n")).finalize()))

    def watch(self, tokens, loc, string):
        self.seen.append((tokens, loc, string))


MADE = {}


def tags(tag):
    got = MADE.get(tag)
    if got is None:
        got = MADE[tag] = Tags(tag)
    return got


def plain(v):
    return v.as_list() if isinstance(v, ParseResults) else v


def one(case, rep, everything=True):
    tag, s = case
    rep.begin(case)
    t = tags(tag)
    rep.add("states", len(s) + 1)
    rep.add("transitions", len(s))
    rep.add("traces_validated_against_impl")

    at = skip(s, 0)
    want = open_tag(s, at, tag)
    got = run(t.open, s)
    if want is None:
        if got is not FAIL:
            rep.violation(case, FAIL, got if isinstance(got, tuple) else (got.end, got.as_list()), note="open tag")
            return
        rep.outcome("no tag")
    else:
        if isinstance(got, tuple) or got.end != want[0] or got.as_list() != [tokens_of(want)]:
            rep.violation(case, (want[0], [tokens_of(want)]), got if isinstance(got, tuple) else (got.end, got.as_list()), note="open tag")
            return
        rep.outcome("%d attributes%s" % (len(want[2]), ", empty" if want[3] else ""))
        del t.seen[:]
        run(t.watched, s)
        if len(t.seen) != 1 or t.seen[0][1] != at or t.seen[0][2] != s:
            rep.violation(case, (at, s), [x[1:] for x in t.seen], note="action")
            return
        for result in (got["start" + t.title], t.seen[0][0]):
            problem = readable(result, want)
            if problem:
                rep.violation(case, problem[0], problem[1], note=problem[2])
                return
    if want is not None:
        names = [n for n, _ in want[2]]
        if len(set(names)) == len(names):
            for c, p in t.held:
                got = run(p, s)
                ok = meets(want[2], c)
                rep.add("traces_validated_against_impl")
                if isinstance(got, tuple) == ok or got is not FAIL and isinstance(got, tuple):
                    rep.violation(case, ("accepts" if ok else "refuses", {k: "ANY" if v is ANY else v for k, v in c.items()}), got if isinstance(got, tuple) else got.as_list(), note="condition")
                    return
                rep.outcome("condition %s" % ("met" if ok else "not met"))

    want = close_tag(s, at, tag)
    got = run(t.close, s)
    if (want is None) != (got is FAIL) or want is not None and (isinstance(got, tuple) or (got.end, plain(got["end" + t.title])) != want):
        rep.violation(case, want, got if isinstance(got, tuple) else (got.end, got.as_list()), note="close tag")
        return
    if want is not None:
        rep.outcome("close tag")

    # every tag in a text
    want, p = [], 0
    while p <= len(s):
        found = open_tag(s, p, tag)
        if found:
            want.append((p, found[0], tokens_of(found)))
            p = found[0]
        else:
            p += 1
    have = [(b, e, r.as_list()) for r, b, e in t.open.scan_string(s)]
    if have != want:
        rep.violation(case, want, have, note="tags in the text")
        return
    if tag is None:
        want, p = "", 0
        while p < len(s):
            found = open_tag(s, p, None) or close_tag(s, p, None)
            if found:
                p = found[0]
            else:
                want += s[p]
                p += 1
        have = stripHTMLTags([s], 0, s)
        if have != want:
            rep.violation(case, want, have, note="text without tags")
    rep.end()


def readable(result, want):
    end, tag, attributes, empty = want
    if result["tag"] != tag:
        return tag, plain(result["tag"]), "tag"
    if result["empty"] is not empty:
        return empty, plain(result["empty"]), "empty"
    values = {}
    for n, v in attributes:
        values.setdefault(n, []).extend([] if v is None else [v])
    for n, vs in values.items():
        if n in ("tag", "empty"):
            continue
        have = result[n]
        have = [have] if isinstance(have, str) else list(have)
        if have != vs:
            return vs, have, "attribute " + n
    for n in ("b", "class", "c"):
        if n not in values and n in result:
            return "no " + n, plain(result[n]), "attribute " + n


# ---------------------------------------------------------------- texts
PIECES = ("<", "a", "A", "b", "=", '"', "'", " ", "\n", "/", ">", "-", "1", ":")
HEADS = ("<a", "<A", "< a", "<\na", "<ab", "<a_", "<a-", "<b", "</a", "a", "<a:b", "<a1", "</ A", "</aB", "<aé")
NAMES = ("b", "B", "class", "x-y", "n:s", "n:class", "c", "_", "1b", "é")
EQUALS = ("=", " = ", "=\n", "")
VALUES = ("1", '"1"', "'1'", "'g h'", '"g h"', '""', "''", '"a>b"', "\"it's\"", "x/", '"a""b"', "&lt;", '"open', '"a\\"b"', '"\\x"', "é")
SEPS = (" ", "\n ", "")
TAILS = (">", "/>", " >", " / >", "", "//>", "<", ">>", " x>")


def attributes(few):
    if few:
        names, equals, values, seps = NAMES[:3], EQUALS[:1], VALUES[:4] + ("x/",), SEPS[:1]
    else:
        names, equals, values, seps = NAMES, EQUALS, VALUES, SEPS
    if few is None:
        names, equals, values, seps = NAMES[:6], EQUALS[:2], VALUES, SEPS[1:2]
    out = [sep + n + e + v for sep in seps for n in names for e in equals for v in values if e or v == values[0]]
    out.extend(sep + n for sep in seps for n in names)
    return out


def assembled(k, quick=False):
    few = k > 1 or (None if quick else False)
    for head in HEADS[:2] if quick or k > 1 else HEADS:
        for attrs in itertools.product(attributes(few), repeat=k):
            for tail in TAILS if k < 3 else TAILS[:3]:
                yield head + "".join(attrs) + tail


def damaged(k):
    """one character left out, or doubled, or another in its place"""
    for head in HEADS[:1] + ("</A",):
        for attrs in itertools.product(attributes(True), repeat=k):
            for tail in (">", " />"):
                text = head + "".join(attrs) + tail
                for i in range(len(text)):
                    yield text[:i] + text[i + 1 :]
                    yield text[:i] + text[i] + text[i:]
                    for c in "<>\"' /=":
                        yield text[:i] + c + text[i + 1 :]


CHARS = [chr(i) for i in range(1, 256)] + list("\u0130\u0131\u017f\u212a\u00b2\u0660\u2003\u2028\ufeff\uff41\U0001d41a")


def characters(n):
    """every character at every place of a tag, or between any two of its characters"""
    for text in ("<a b=1 c>", "</a>", "<a x-y='g'/>", "<a:b n:s=a>")[:n]:
        for i in range(len(text) + 1):
            for c in CHARS:
                yield text[:i] + c + text[i:]
                yield text[:i] + c + text[i + 1 :]


def texts(kind):
    k, n = kind
    if k == "chars":
        return characters(n)
    if k == "pieces":
        return strings(PIECES, n)
    if k == "tag":
        return ("<a" + t for t in strings(PIECES, n))
    if k == "single":
        return assembled(n, True)
    if k == "assembled":
        return assembled(n)
    if k == "damaged":
        return damaged(n)
    if k == "page":
        blocks = ("<a>", "</a>", "<A b=1>", "<a c='>'/>", "x", " ", "<", ">", "<b>", "</b >", "\n")
        return strings(blocks, n)
    raise Exception()


ENTITY = ("&", "lt", "gt", "amp", "nbsp", "quot", "apos", ";", "#", " ", "x")
KNOWN = {"gt": ">", "lt": "<", "amp": "&", "nbsp": " ", "quot": '"', "apos": "'"}


def entities(s, rep):
    case = ("entity", s)
    rep.begin(case)
    rep.add("states", len(s) + 1)
    rep.add("transitions", len(s))
    rep.add("traces_validated_against_impl")
    want, found, p = "", [], 0
    while p < len(s):
        for k, v in KNOWN.items():
            if s.startswith("&" + k + ";", p):
                want += v
                found.append((p, p + len(k) + 2))
                p += len(k) + 2
                break
        else:
            want += s[p]
            p += 1
    p = MADE.get("entity")
    if p is None:
        p = MADE["entity"] = (commonHTMLEntity / replaceHTMLEntity).finalize(), commonHTMLEntity.finalize()
    have = p[0].transform_string(s)
    if have != want:
        rep.violation(case, want, have, note="entities replaced")
        return
    have = [(b, e) for _, b, e in p[1].scan_string(s)]
    if have != found:
        rep.violation(case, found, have, note="entities found")
    rep.outcome("%d entities" % len(found))
    rep.end()


NAMED = ("a", "A", "a:b", None)
PLAN = {
    "quick": [
        (("pieces", 3), NAMED, 8), (("tag", 4), NAMED[:1], 32), (("tag", 3), NAMED[1:], 16), (("assembled", 0), NAMED, 1), (("single", 1), NAMED, 32),
        (("assembled", 2), NAMED[:1], 32), (("damaged", 1), NAMED[:1], 32), (("page", 4), (None,), 16), (("chars", 3), NAMED[:1], 16), (("entity", 4), (), 8),
    ],
    "thorough": [
        (("pieces", 5), NAMED[:1], 128), (("pieces", 4), NAMED, 64), (("tag", 5), NAMED[:1], 256), (("assembled", 1), NAMED, 256), (("assembled", 2), NAMED, 16), (("assembled", 3), NAMED[:1], 64),
        (("damaged", 1), NAMED, 64), (("damaged", 2), NAMED[:1], 128), (("page", 5), (None, "a"), 64), (("chars", 4), NAMED, 64), (("entity", 6), (), 32),
    ],
}


def shards(tier):
    return [(i, j, row[2]) for i, row in enumerate(PLAN[tier]) for j in range(row[2])]


def run_shard(shard, tier, rep):
    i, j, k = shard
    kind, names, _ = PLAN[tier][i]
    if kind[0] == "entity":
        for s in part(strings(ENTITY, kind[1]), j, k):
            entities(s, rep)
        return
    for x, s in enumerate(part(texts(kind), j, k)):
        for tag in names:
            one((tag, s), rep)
        if x == 0 and j == 0:
            rep.sample("%r in %r" % (names, s))


def replay(case, rep):
    if case[0] == "entity":
        entities(case[1], rep)
    else:
        one(tuple(case), rep)
