# encoding: utf-8
"""predefined lexical expressions, against recognisers written by hand, over every text near their form"""
import itertools
import re

from mc.build import ParseException
from mo_parsing import *
from mo_parsing import helpers
from datetime import date, datetime

PID = "C22"
LEVEL = "model_checking"
RULE = (
    "for every predefined expression: every text up to a length over the characters that matter to it, and, for those of a fixed form, every text at most two edits (replace, insert, delete, out of the characters that matter) "
    "away from well-formed texts, or every assembly of parts. A recogniser written by hand walks the text (a state for each prefix) and says whether it is in the language and which value it denotes; "
    "the library must accept exactly these texts as a whole, with that value, also with blanks around, and when followed by something else. An outcome is an expression and accepted or refused"
)
ASSUMPTIONS = [
    "bounds: the alphabets, lengths and edits listed in the check",
    "digits, letters and hexadecimal digits are those of ASCII",
    "mixed numbers with two signs in a row, and date times with a bare colon or point at the end of a part, are left out",
]

NO = ("no",)
DIGITS = "0123456789"
HEX = DIGITS + "abcdefABCDEF"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
BLANK = " \t\n\r"


class Walk(object):
    """reads a text from left to right, counting"""

    def __init__(self, text):
        self.text = text
        self.i = 0
        self.steps = 0

    def peek(self):
        return self.text[self.i:self.i + 1]

    def one(self, chars):
        self.steps += 1
        c = self.peek()
        if c and c in chars:
            self.i += 1
            return c
        return ""

    def many(self, chars, low=0, high=None):
        start = self.i
        while (high is None or self.i - start < high) and self.one(chars):
            pass
        if self.i - start < low:
            raise Refused()
        return self.text[start:self.i]

    def blank(self):
        return self.many(BLANK)

    def need(self, chars):
        c = self.one(chars)
        if not c:
            raise Refused()
        return c

    def word(self, word):
        for c in word:
            self.need(c)

    def end(self):
        if self.i != len(self.text):
            raise Refused()


class Refused(Exception):
    pass


def r_integer(w):
    return (int(w.many(DIGITS, 1)),)


def r_hex(w):
    return (int(w.many(HEX, 1), 16),)


def r_signed(w):
    sign = w.one("+-")
    value = int(w.many(DIGITS, 1))
    return (-value if sign == "-" else value,)


def r_fraction(w):
    top = r_signed(w)[0]
    w.blank()
    w.need("/")
    w.blank()
    bottom = r_signed(w)[0]
    if not bottom:
        raise Refused()
    return (top / bottom,)


def r_mixed(w):
    negative = w.peek() == "-"
    first = abs(r_signed(w)[0])
    w.blank()
    if w.i == len(w.text):
        return (-first if negative else first,)
    if w.peek() == "/":
        w.one("/")
        w.blank()
        bottom = r_signed(w)[0]
        if not bottom:
            raise Refused()
        return ((-first if negative else first) / bottom,)
    w.one("-")
    w.blank()
    if w.peek() in "+-":
        raise Refused()
    part = r_fraction(w)[0]
    return (-first - part if negative else first + part,)


def number_form(w, point, exponent, lead=True):
    """sign, digits, point and exponent: which of these there are"""
    sign = -1 if w.one("+-") == "-" else 1
    whole = w.many(DIGITS)
    value = float(int(whole or "0"))
    frac = None
    if point and w.peek() == ".":
        w.one(".")
        frac = w.many(DIGITS)
    if not whole and not (frac and lead):
        raise Refused()
    power = None
    if exponent and w.peek() and w.peek() in "eE":
        w.one("eE")
        minus = w.one("+-") == "-"
        power = int(w.many(DIGITS, 1))
        if minus:
            power = -power
    text = "%s%s.%se%d" % ("-" if sign < 0 else "", whole or "0", frac or "0", power or 0)
    return float(text), frac is not None, power is not None


def r_real(w):
    value, point, power = number_form(w, True, False)
    if not point:
        raise Refused()
    return (value,)


def r_sci(w):
    value, point, power = number_form(w, True, True)
    if not point and not power:
        raise Refused()
    return (value,)


def r_number(w):
    value, point, power = number_form(w, True, True)
    if not point and not power:
        return (int(value),)
    return (value,)


def r_fnumber(w):
    return (number_form(w, True, True, lead=False)[0],)


def r_identifier(w):
    start = w.i
    w.need(LETTERS + "_")
    w.many(LETTERS + DIGITS + "_")
    return (w.text[start:w.i],)


def r_ipv4(w):
    for i in range(4):
        if i:
            w.need(".")
        part = w.many(DIGITS, 1)
        if len(part) > 3 or int(part) > 255 or (len(part) == 3 and part[0] == "0"):
            raise Refused()
    return (w.text,)


def r_ipv6(w):
    text = w.text
    if text.startswith("::ffff:") and "." in text:
        w.word("::ffff:")
        r_ipv4(w)
        return (text,)
    groups, gap = 0, False
    expect_group = False
    while True:
        if w.peek() == ":":
            w.one(":")
            if w.peek() == ":":
                w.one(":")
                if gap or expect_group:
                    raise Refused()
                gap = True
                if w.i == len(text):
                    break
                w.many(HEX, 1, 4)
                groups += 1
                if w.i == len(text):
                    break
                if w.peek() != ":":
                    raise Refused()
                continue
            if not groups:
                raise Refused()
            w.many(HEX, 1, 4)
            groups += 1
        elif groups == 0 and not gap:
            w.many(HEX, 1, 4)
            groups += 1
        else:
            raise Refused()
        if w.i == len(text):
            break
    if gap and groups <= 7 or not gap and groups == 8:
        return (text,)
    raise Refused()


def r_mac(w):
    w.many(HEX, 2, 2)
    sep = w.need(":.-")
    w.many(HEX, 2, 2)
    for _ in range(4):
        w.need(sep)
        w.many(HEX, 2, 2)
    return (w.text,)


def r_uuid(w):
    for i, n in enumerate((8, 4, 4, 4, 12)):
        if i:
            w.need("-")
        w.many(HEX, n, n)
    return (w.text,)


def r_date(w):
    year = w.many(DIGITS, 4, 4)
    names = [("year", year)]
    values = [year]
    if w.i < len(w.text):
        w.need("-")
        values.append(w.many(DIGITS, 2, 2))
        names.append(("month", values[-1]))
        if w.i < len(w.text):
            w.need("-")
            values.append(w.many(DIGITS, 2, 2))
            names.append(("day", values[-1]))
    return ("parts", tuple(values), tuple(sorted(names)))


def r_datetime(w):
    names = []
    for name, n, sep in [("year", 4, ""), ("month", 2, "-"), ("day", 2, "-"), ("hour", 2, "T "), ("minute", 2, ":")]:
        if sep:
            w.need(sep)
        names.append((name, w.many(DIGITS, n, n)))
    if w.peek() == ":":
        w.one(":")
        second = w.many(DIGITS, 2, 2)
        if w.peek() == ".":
            w.one(".")
            second += "." + w.many(DIGITS, 1)
        names.append(("second", second))
    if w.i < len(w.text):
        start = w.i
        if w.need("Z+-") != "Z":
            w.many(DIGITS, 2, 2)
            w.one(":")
            w.many(DIGITS, 2, 2)
        names.append(("tz", w.text[start:w.i]))
    return ("names", tuple(sorted(names)))


def r_real_date(w):
    r_date(w)
    try:
        return (date(int(w.text[0:4]), int(w.text[5:7]), int(w.text[8:10])),)
    except ValueError:
        raise Refused()


def r_real_datetime(w):
    t = w.text
    r_datetime(w)
    if len(t) < 20 or t[10] != "T" or "." not in t or t[-1] not in DIGITS or len(t) > 26:
        raise Refused()
    try:
        return (datetime(int(t[0:4]), int(t[5:7]), int(t[8:10]), int(t[11:13]), int(t[14:16]), int(t[17:19]), int(t[20:].ljust(6, "0"))),)
    except ValueError:
        raise Refused()


def r_c_comment(w):
    w.word("/*")
    while True:
        c = w.peek()
        if not c:
            raise Refused()
        w.i += 1
        w.steps += 1
        if c == "*" and w.peek() == "/":
            w.i += 1
            return (w.text,)


def r_slash_comment(w):
    w.word("//")
    while w.i < len(w.text):
        c = w.text[w.i]
        w.i += 1
        w.steps += 1
        if c == "\n":
            raise Refused()
        if c == "\\" and w.peek() == "\n":
            w.i += 1
    return (w.text,)


def r_cpp_comment(w):
    return r_c_comment(w) if w.text.startswith("/*") else r_slash_comment(w)


def r_python_comment(w):
    w.need("#")
    while w.i < len(w.text):
        if w.text[w.i] == "\n":
            raise Refused()
        w.i += 1
        w.steps += 1
    return (w.text,)


def r_html_comment(w):
    w.word("<!--")
    while True:
        if w.i >= len(w.text):
            raise Refused()
        if w.text.startswith("-->", w.i):
            w.i += 3
            return (w.text,)
        w.i += 1
        w.steps += 1


def r_comma(w):
    values = []
    while True:
        w.blank()
        c = w.peek()
        if c == '"' or c == "'":
            start = w.i
            w.one(c)
            while True:
                d = w.peek()
                if not d or d in "\r\n":
                    raise NotQuoted()
                w.i += 1
                w.steps += 1
                if d == "\\":
                    if not w.peek():
                        raise NotQuoted()
                    w.i += 1
                elif d == c:
                    if w.peek() != c:
                        break
                    w.i += 1
            values.append(w.text[start:w.i])
        else:
            start = w.i
            while w.peek() and w.peek() not in ",\n\r":
                w.i += 1
                w.steps += 1
            values.append(w.text[start:w.i].strip())
        w.blank()
        if w.i == len(w.text):
            return tuple(values)
        w.need(",")


class NotQuoted(Exception):
    """a quote that opens nothing: what that is, is not said"""


BLANKS_INSIDE = {"fraction", "mixed_integer", "comma_separated_list", "commaSeparatedList"}

EXPRESSIONS = {
    "integer": (helpers.integer, r_integer),
    "hex_integer": (helpers.hex_integer, r_hex),
    "signed_integer": (helpers.signed_integer, r_signed),
    "fraction": (helpers.fraction, r_fraction),
    "mixed_integer": (helpers.mixed_integer, r_mixed),
    "real": (helpers.real, r_real),
    "sci_real": (helpers.sci_real, r_sci),
    "number": (helpers.number, r_number),
    "fnumber": (helpers.fnumber, r_fnumber),
    "identifier": (helpers.identifier, r_identifier),
    "ipv4_address": (helpers.ipv4_address, r_ipv4),
    "ipv6_address": (helpers.ipv6_address, r_ipv6),
    "mac_address": (helpers.mac_address, r_mac),
    "uuid": (helpers.uuid, r_uuid),
    "iso8601_date": (helpers.iso8601_date, r_date),
    "iso8601_datetime": (helpers.iso8601_datetime, r_datetime),
    "convertToDate": (helpers.iso8601_date.add_parse_action(helpers.convertToDate()), r_real_date),
    "convertToDatetime": (helpers.iso8601_datetime.add_parse_action(helpers.convertToDatetime()), r_real_datetime),
    "cStyleComment": (helpers.cStyleComment, r_c_comment),
    "dblSlashComment": (helpers.dblSlashComment, r_slash_comment),
    "cppStyleComment": (helpers.cppStyleComment, r_cpp_comment),
    "javaStyleComment": (helpers.javaStyleComment, r_cpp_comment),
    "pythonStyleComment": (helpers.pythonStyleComment, r_python_comment),
    "html_comment": (helpers.html_comment, r_html_comment),
    "comma_separated_list": (helpers.comma_separated_list, r_comma),
    "commaSeparatedList": (helpers.commaSeparatedList, r_comma),
}


def expected(name, text):
    """(answer, steps)"""
    w = Walk(text)
    try:
        answer = EXPRESSIONS[name][1](w)
        if name in BLANKS_INSIDE:
            w.blank()
        w.end()
    except Refused:
        answer = NO
    except NotQuoted:
        answer = None
    return answer, w.steps + 1


def odd(name, text):
    """left out"""
    if name == "mixed_integer" or name == "fraction":
        signs = "".join(c for c in text if c not in BLANK)
        return any(a + b in signs for a in "+-" for b in "+-")
    if name in ("iso8601_datetime", "convertToDatetime"):
        tail = text[16:]
        return tail in (":",) or tail[:1] == ":" and not tail[1:2].isdigit() or ".Z" in tail or tail.endswith(".") or ".+" in tail or ".-" in tail
    return False


def lengths(tier):
    """(expression, alphabet, length)"""
    deep = 0 if tier == "quick" else 2
    return [
        ("integer", "07a- .", 4 + deep),
        ("hex_integer", "09aFgx", 4 + deep),
        ("signed_integer", "+-05a ", 4 + deep),
        ("fraction", "12/-0 ", 5 + deep),
        ("mixed_integer", "13/- 0", 6 + deep // 2),
        ("real", "+-.05e", 5 + deep),
        ("sci_real", "+-.2eE", 6 + deep // 2),
        ("number", "+-.2eE", 6 + deep // 2),
        ("fnumber", "+-.2eE", 5 + deep),
        ("identifier", "aZ_0- ", 4 + deep),
        ("cStyleComment", "/* a\n", 6 + deep),
        ("dblSlashComment", "/\\\na*", 6 + deep),
        ("cppStyleComment", "/\\\n*a", 6 + deep),
        ("javaStyleComment", "/\\\n*", 5 + deep),
        ("pythonStyleComment", "#\na ", 6 + deep),
        ("html_comment", "<!->", 8 + deep),
        ("comma_separated_list", "a, \"\n", 6 + deep),
        ("comma_separated_list", "a, '\t", 5 + deep),
        ("commaSeparatedList", "a, \"\t", 6 + deep),
        ("ipv6_address", "1:f.", 7 + deep),
        ("ipv4_address", "12.", 8 + deep),
    ]


NEAR = {
    "ipv4_address": ("0259.a", ["1.22.255.0", "9.0.199.249", "10.25.5.2"]),
    "mac_address": ("0aG:-.", ["00:1a:2B:3c:4D:5e", "00-1a-2B-3c-4D-5e", "00.11.22.33.44.55"]),
    "uuid": ("0aG-", ["12345678-9abc-def0-1234-56789abcdef0"]),
    "iso8601_date": ("09-a", ["1999", "1999-12", "1999-12-31"]),
    "convertToDate": ("0139-", ["1999-12-31", "2000-02-29", "1900-02-28"]),
    "iso8601_datetime": ("09-:TZ+. ", ["1999-12-31T23:59:59.999", "1999-12-31 23:59", "1999-12-31T23:59:59+05:30", "1999-12-31T23:59Z"]),
    "convertToDatetime": ("0269", ["1999-12-31T23:59:59.999"]),
    "html_comment": ("<!->a", ["<!-- a -->", "<!---->"]),
    "ipv6_address": ("1f:.g", ["1:22:333:4444:a:b:c:d", "::1", "1:2::3:4", "1:2:3:4:5:6:7::", "::ffff:1.2.3.4", "::2:3:4:5:6:7:8", "::"]),
}


def edits(text, chars):
    for i in range(len(text) + 1):
        for c in chars:
            yield text[:i] + c + text[i:]
        if i < len(text):
            yield text[:i] + text[i + 1:]
            for c in chars:
                if c != text[i]:
                    yield text[:i] + c + text[i + 1:]


def near(name, tier):
    chars, bases = NEAR[name]
    seen = set()
    for base in bases:
        if base not in seen:
            seen.add(base)
            yield base
        twice = tier != "quick" or len(base) * len(chars) < 80
        for one in edits(base, chars):
            if one not in seen:
                seen.add(one)
                yield one
            if twice:
                for two in edits(one, chars):
                    if two not in seen:
                        seen.add(two)
                        yield two


def pieces(name, tier):
    """whole parts left out, repeated and exchanged"""
    seen = set()
    for base in NEAR[name][1]:
        units = re.findall(r"[^0-9A-Za-z]*[0-9A-Za-z]+|[^0-9A-Za-z]+$", base)

        def changed(units):
            for i in range(len(units)):
                yield units[:i] + units[i + 1:]
                yield units[:i] + [units[i]] + units[i:]
                for j in range(i + 1, len(units)):
                    yield units[:i] + [units[j]] + units[i + 1:j] + [units[i]] + units[j + 1:]
                    yield units[:i] + units[j:]
                    yield units[:j] + units[i:]

        for one in changed(units):
            for two in itertools.chain([one], changed(one) if tier != "quick" or len(units) < 8 else ()):
                text = "".join(two)
                if text not in seen:
                    seen.add(text)
                    yield text


def octets(tier):
    parts = ["0", "00", "5", "99", "100", "199", "200", "249", "250", "255", "256", "260", "300", "012", "1234", "", "a", " 1", "1 "]
    if tier == "quick":
        parts = [p for p in parts if p not in ("00", "200", "260", "300", "1 ")]
    for n in (3, 4, 5):
        if n == 5:
            parts = ["1", "255", ""]
        for t in itertools.product(parts, repeat=n):
            yield ".".join(t)


def groups(tier):
    """left and right of ::, each with at most one group or colon out of place"""
    strange = ["", "g", "12345", "fFfF", " 1", "1.2.3.4", ":", "0000"]
    shapes = []
    for left in range(0, 10):
        shapes.append((["1"] * left, None))
        for right in range(0, 9):
            shapes.append((["1"] * left, ["f"] * right))

    def join(left, right):
        return ":".join(left) if right is None else ":".join(left) + "::" + ":".join(right)

    for left, right in shapes:
        yield join(left, right)
        n = len(left) + len(right or [])
        for i in range(n):
            for s in strange:
                l, r = list(left), list(right) if right is not None else None
                if i < len(l):
                    l[i] = s
                else:
                    r[i - len(l)] = s
                yield join(l, r)
                if tier != "quick":
                    for j in range(i + 1, n):
                        for s2 in strange:
                            l2, r2 = list(l), list(r) if r is not None else None
                            if j < len(l2):
                                l2[j] = s2
                            else:
                                r2[j - len(l2)] = s2
                            yield join(l2, r2)


def numbers(tier):
    """assemblies of the parts of a number"""
    for sign in ("", "+", "-"):
        for whole in ("", "0", "12", "007"):
            for frac in ("", ".", ".0", ".50"):
                for power in ("", "e", "e5", "E+5", "e-12", "e 5", "e5.0"):
                    yield sign + whole + frac + power


def universe(kind, name, alphabet, length, tier):
    if kind == "all":
        for n in range(length + 1):
            for t in itertools.product(alphabet, repeat=n):
                yield "".join(t)
    elif kind == "near":
        yield from near(name, tier)
    elif kind == "pieces":
        yield from pieces(name, tier)
    elif kind == "octets":
        yield from octets(tier)
    elif kind == "groups":
        yield from groups(tier)
    elif kind == "numbers":
        yield from numbers(tier)
        for a in numbers("quick"):
            yield a + " "
            yield " " + a


def rows(tier):
    for name, alphabet, length in lengths(tier):
        yield "all", name, alphabet, length
    for name in NEAR:
        yield "near", name, None, None
        yield "pieces", name, None, None
    yield "octets", "ipv4_address", None, None
    yield "groups", "ipv6_address", None, None
    for name in ("integer", "signed_integer", "real", "sci_real", "number", "fnumber"):
        yield "numbers", name, None, None


PARTS = 8


def shards(tier):
    return [(row, k, PARTS) for row in rows(tier) for k in range(PARTS if row[0] != "numbers" else 1)]


class Real(object):
    def __init__(self, name):
        self.name = name
        e = EXPRESSIONS[name][0]
        self.parser = e.finalize()
        self.follow = (e + Literal("$")).finalize()

    def ask(self, text):
        """whole text, and with something after it"""
        try:
            r = self.parser.parse(text, parse_all=True)
            got = view(self.name, r)
        except ParseException:
            got = NO
        return got

    def ask_followed(self, text):
        try:
            r = self.follow.parse(text + "$")
            return "$" == list(r)[-1]
        except ParseException:
            return False


def view(name, r):
    if name == "iso8601_date":
        return "parts", tuple(r), tuple(sorted((k, r[k]) for k in r.keys() if not k.isdigit()))
    if name == "iso8601_datetime":
        return "names", tuple(sorted((k, r[k]) for k in r.keys() if not k.isdigit()))
    return tuple(r)


FOLLOWED = {
    "integer", "hex_integer", "signed_integer", "fraction", "mixed_integer", "real", "sci_real", "number", "fnumber", "identifier",
    "ipv4_address", "ipv6_address", "mac_address", "uuid", "iso8601_date", "iso8601_datetime", "cStyleComment", "html_comment",
}


def run_shard(shard, tier, rep):
    (kind, name, alphabet, length), k, n = shard
    real = Real(name)
    for i, text in enumerate(universe(kind, name, alphabet, length, tier)):
        if i % n == k:
            check(real, text, rep)
    if k == 0:
        rep.sample("%s %s: %s texts such as %r" % (name, kind, i + 1, text))


def check(real, text, rep):
    name = real.name
    core = text if name in BLANKS_INSIDE and name.startswith("comma") else text.lstrip(BLANK)
    inner = core.rstrip(BLANK) if name not in ("dblSlashComment", "cppStyleComment", "javaStyleComment", "pythonStyleComment") else None
    if odd(name, core if inner is None else inner):
        return
    if inner is None:
        # WHITE AT THE END BELONGS TO THE COMMENT, A LINE END DOES NOT
        want, steps = expected(name, core)
        if want == NO and core.rstrip(BLANK) != core:
            return
    else:
        want, steps = expected(name, inner)
    if want is None:
        return
    case = (name, text)
    rep.add("states", steps)
    rep.add("transitions", steps)
    rep.begin(case)
    try:
        got = real.ask(text)
        after = real.ask_followed(text) if name in FOLLOWED else None
    except Exception as cause:
        got, after = ("raised", type(cause).__name__, str(cause)[:200]), None
    rep.end()
    rep.add("traces_validated_against_impl")
    if got != want or [type(g) for g in got] != [type(g) for g in want]:
        rep.violation(case, want, got)
    elif after is not None and after != (want != NO):
        rep.violation(case, want != NO, after, note="followed by $")
    rep.outcome("%s %s" % (name, "refused" if want == NO else "accepted"))


def replay(case, rep):
    name, text = case
    check(Real(name), text, rep)
