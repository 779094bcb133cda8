# encoding: utf-8
"""quoted strings: extent and content, against an automaton that reads one text from left to right"""
import itertools

from mc.build import attempt, given, snapshot, ParseException
from mc.universe import part
from mo_parsing import *
from mo_parsing import whitespaces, helpers
from mo_parsing.helpers import QuotedString, dblQuotedString, sglQuotedString, quoted_string, unicode_string

PID = "C19"
LEVEL = "model_checking"
RULE = (
    "for every setting (quote, end quote, escape character, escape quote, multiline, unquoting, conversion of white escapes) the automaton (state: before the quote, in the text, after an escape, done) is walked over "
    "every text up to the bound, and the library must accept the same texts, end at the same place, and give the same content; alone, repeated, after another expression, scanned for, and named. "
    "An outcome is a pair of setting and what happened"
)
ASSUMPTIONS = [
    "bounds: the settings and the alphabet of each, and the length of the text",
    "an escape character before a line end, in a multiline string, is kept",
]

FAIL = None


def scan(setting, text, i):
    """
    the automaton
    :return: (end, content, transitions) or (None, None, transitions)
    """
    quote, esc, esc_quote, multi, unquote, end_quote, convert = setting
    end_quote = end_quote or quote
    n = 0
    if not text.startswith(quote, i):
        return None, None, 1
    start = i
    i += len(quote)
    while True:
        n += 1
        if i >= len(text):
            return None, None, n
        c = text[i]
        if esc and text.startswith(esc, i) and i + len(esc) < len(text) and (multi or text[i + len(esc)] not in "\r\n"):
            i += len(esc) + 1
            continue
        if esc_quote and text.startswith(esc_quote, i):
            i += len(esc_quote)
            continue
        if text.startswith(end_quote, i):
            break
        if not multi and c in "\r\n":
            return None, None, n
        i += 1
    end = i + len(end_quote)
    body = text[start:end]
    if unquote:
        body = resolve(setting, text[start + len(quote):i])
    return end, body, n


def resolve(setting, body):
    quote, esc, esc_quote, multi, unquote, end_quote, convert = setting
    out = []
    i = 0
    while i < len(body):
        two = body[i:i + 2]
        if convert and two in WHITE:
            out.append(WHITE[two])
            i += 2
        elif esc and body.startswith(esc, i) and i + len(esc) < len(body) and body[i + len(esc)] != "\n":
            out.append(body[i + len(esc)])
            i += len(esc) + 1
        elif esc_quote and body.startswith(esc_quote, i):
            out.append(end_quote or quote)
            i += len(esc_quote)
        else:
            out.append(body[i])
            i += 1
    return "".join(out)


WHITE = {"\\t": "\t", "\\n": "\n", "\\f": "\f", "\\r": "\r"}


def predefined(name):
    def one(quote):
        def run(text, i):
            """" or ' strings: doubled quotes and backslash escapes stay as they are"""
            if not text.startswith(quote, i):
                return None, 1
            i += 1
            n = 1
            while i < len(text):
                n += 1
                c = text[i]
                if c == "\\":
                    after = text[i + 1:i + 2]
                    if not after:
                        return None, n
                    if after == "x":
                        j = i + 2
                        while j < len(text) and text[j] in "0123456789abcdefABCDEF":
                            j += 1
                        if j == i + 2:
                            return None, n
                        i = j
                    else:
                        i += 2
                elif c == quote:
                    if text.startswith(quote * 2, i):
                        i += 2
                    else:
                        return i + 1, n
                elif c in "\r\n":
                    return None, n
                else:
                    i += 1
            return None, n

        return run

    dbl, sgl = one('"'), one("'")

    def either(text, i):
        end, n = dbl(text, i)
        return (end, n) if end else sgl(text, i)

    def uni(text, i):
        return either(text, i + 1) if text.startswith("u", i) else (None, 1)

    return {"dbl": dbl, "sgl": sgl, "quoted": either, "unicode": uni}[name]


PREDEFINED = {"dbl": dblQuotedString, "sgl": sglQuotedString, "quoted": quoted_string, "unicode": unicode_string}


class Machine(object):
    def __init__(self, setting):
        self.setting = setting
        if isinstance(setting, str):
            self.model = predefined(setting.rstrip("+"))

    def build(self):
        s = self.setting
        if isinstance(s, str):
            return PREDEFINED[s.rstrip("+")]
        quote, esc, esc_quote, multi, unquote, end_quote, convert = s
        return QuotedString(
            quote,
            **given(
                esc_char=(esc, None), esc_quote=(esc_quote, None), multiline=(multi, False), unquote_results=(unquote, True),
                end_quote_char=(end_quote, ""), convert_whitespace_escape=(convert, True),
            )
        )

    def scan(self, text, i):
        if isinstance(self.setting, str):
            end, n = self.model(text, i)
            return end, text[i:end] if end else None, n
        return scan(self.setting, text, i)


def skip(text, i, blank):
    while i < len(text) and text[i] in blank:
        i += 1
    return i


BLANK = " \n\r\t"
FORMS = ["alone", "many", "after", "before", "scan", "tight"]


def expected(machine, form, text):
    """what the form gives, and how many transitions that took"""
    blank = "" if form == "tight" else BLANK
    n = 0
    if form in ("alone", "tight"):
        at = skip(text, 0, blank)
        end, body, n = machine.scan(text, at)
        return (("gave", at, end, (body,), (("x", body),)) if end else "fail"), n
    if form == "many":
        i = skip(text, 0, blank)
        first, last, got = i, None, []
        while True:
            at = skip(text, i, blank)
            end, body, k = machine.scan(text, at)
            n += k
            if not end:
                break
            got.append(body)
            i = last = end
        return (("gave", first, last, tuple(got), ()) if got else "fail"), n
    if form == "after":
        at = skip(text, 0, blank)
        if not text.startswith("t", at):
            return "fail", 1
        q = skip(text, at + 1, blank)
        end, body, n = machine.scan(text, q)
        return (("gave", at, end, ("t", body), ()) if end else "fail"), n
    if form == "before":
        at = skip(text, 0, blank)
        end, body, n = machine.scan(text, at)
        if not end:
            return "fail", n
        e = skip(text, end, blank)
        return (("gave", at, e + 1, (body, "t"), ()) if text.startswith("t", e) else "fail"), n
    if form == "scan":
        out = []
        end = 0
        while end <= len(text):
            at = skip(text, end, blank)
            stop, body, k = machine.scan(text, at)
            n += k
            if stop:
                out.append((at, stop, body))
                end = stop
            else:
                end = at + 1
        return ("gave",) + tuple(out), n


def real(machine, form):
    if form == "tight":
        with whitespaces.NO_WHITESPACE:
            return machine.build()("x").finalize()
    q = machine.build()
    e = {
        "alone": lambda: q("x"),
        "many": lambda: OneOrMore(q),
        "after": lambda: Literal("t") + q,
        "before": lambda: q + Literal("t"),
        "scan": lambda: q,
    }[form]()
    return e.finalize()


def got(parser, form, text):
    try:
        if form == "scan":
            return ("gave",) + tuple((s, e, t[0]) for t, s, e in parser.scan_string(text))
        r = parser.parse(text)
        return "gave", r.start, r.end, tuple(r), tuple(sorted((k, r[k]) for k in r.keys()))
    except ParseException:
        return "fail"


def settings(tier):
    for quote, end_quote in [('"', ""), ("'", ""), ("==", ""), ("<", ">"), ("<<", ">>"), ("\u00ab", "\u00bb"), ("t", ""), ("<", ">>"), ("<<", ">"), ("(*", "*)"), ("=", "==")]:
        closes = end_quote or quote
        for esc in [None, "\\", "^", "~~"]:
            for esc_quote in [None, closes * 2, "\\" + closes, "^" + closes, "n" + closes]:
                for multi in (False, True):
                    for unquote, convert in [(True, True), (True, False), (False, True)]:
                        if tier == "quick" and (esc == "~~" or quote in ("'", "t") or quote + end_quote in ("<>", "<<>")):
                            continue
                        if tier == "quick" and len(quote + end_quote) > 2 and quote != "<<" and (esc == "^" or esc_quote and esc_quote[0] not in closes or convert != unquote):
                            continue
                        yield quote, esc, esc_quote, multi, unquote, end_quote, convert


def alphabet(setting):
    if isinstance(setting, str):
        return ('"', "'", "\\", "x", "\r", "F", "g", "0") if setting.endswith("+") else ('"', "'", "\\", "x", "\n", "a", "u")
    quote, esc, esc_quote, multi, unquote, end_quote, convert = setting
    letters = set(quote + end_quote + (esc or "") + (esc_quote or ""))
    letters |= set("\\t\n\r ") if esc_quote is None or esc is None else set("\\t\n")
    return tuple(sorted(letters))


def texts(setting, length):
    letters = alphabet(setting)
    opener = "" if isinstance(setting, str) else setting[0]
    for n in range(length + 1):
        for t in itertools.product(letters, repeat=n):
            yield "".join(t)


def rows(tier):
    for s in settings(tier):
        deep = s[0] == '"' and s[4] and s[6] and s[1] != "^" and s[2] != '^"'
        yield s, (5 if deep else 4) if tier == "quick" else (7 if deep else 6), "alone"
    for s in settings("quick"):
        if s[4] and s[6] and s[0] in ('"', "<<", "=="):
            for form in FORMS[1:]:
                yield s, 3 + (s[0] == '"') if tier == "quick" else 6, form
    for s in PREDEFINED:
        yield s + "+", 5 if tier == "quick" else 7, "alone"
        yield s, 6 if tier == "quick" else 8, "alone"
        for form in FORMS[1:]:
            yield s, 4 if tier == "quick" else 6, form


PARTS = 24


def shards(tier):
    n = PARTS if tier == "quick" else PARTS * 10
    return [(k, n) for k in range(n)]


def run_shard(shard, tier, rep):
    k, n = shard
    for i, (setting, length, form) in enumerate(rows(tier)):
        if i % n != k:
            continue
        machine = Machine(setting)
        parser = real(machine, form)
        opener = setting[0] if isinstance(setting, tuple) and form in ("alone", "tight") else ""
        rep.add("settings")
        for text in texts(setting, length):
            if opener:
                text = opener + text
            check(machine, parser, form, text, rep)
    rep.sample("%r %s: all texts of %s characters over %r" % (setting, form, length, "".join(alphabet(setting))))


def check(machine, parser, form, text, rep):
    case = (machine.setting, form, text)
    want, n = expected(machine, form, text)
    rep.add("states", n + 1)
    rep.add("transitions", n)
    rep.begin(case)
    try:
        answer = got(parser, form, text)
    except Exception as cause:
        answer = ("raised", type(cause).__name__, str(cause)[:200])
    rep.end()
    rep.add("traces_validated_against_impl")
    if answer != want:
        rep.violation(case, want, answer)
    rep.outcome(want if isinstance(want, str) else "matches %s of %s" % (len(want), form))


def replay(case, rep):
    setting, form, text = case
    machine = Machine(setting)
    check(machine, real(machine, form), form, text, rep)
