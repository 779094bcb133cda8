# encoding: utf-8
"""
The reference model: a PEG, interpreted directly over a small abstract syntax.

A grammar is a nested tuple (kind, ...).  `Model` gives its meaning on one input string; `build` makes the
same grammar with the public API of mo_parsing.  The model shares no code with the library: no regular
expressions are generated, nothing is cached between inputs, nothing is reordered or flattened.

Result nodes of the model are lists  [flags, name, children, start, end]
    GROUP   a Group (closed result: iteration yields it as one item)
    HIDDEN  seen by name only (the result of a look-ahead)
children are strings (or values made by parse actions) and nodes.
"""
import re
import sys

BIG = sys.maxsize
PLAIN, GROUP, HIDDEN = 0, 1, 2

STD = (" \n\r\t", None)  # the whitespace that applies by default
NOWS = ("", None)

ALNUM = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
KWCHARS = ALNUM + "_$"
PRINTABLE = "".join(map(chr, range(33, 127)))


class LeftRecursion(Exception):
    pass


class Model(object):
    """one grammar language, one input"""

    __slots__ = ["s", "n", "memo", "steps", "log", "envs"]

    def __init__(self, s):
        self.s = s
        self.n = len(s)
        self.memo = {}
        self.steps = 0
        self.log = None
        self.envs = {}

    # ---------------------------------------------------------------- whitespace
    def skip(self, p, ws):
        white, ignore = ws
        s, n = self.s, self.n
        while True:
            while p < n and s[p] in white:
                p += 1
            if ignore is None:
                return p
            q = ignore_match(ignore, s, p)
            if q is None or q == p:
                return p
            p = q

    # ---------------------------------------------------------------- matching
    def match(self, a, p, ws=STD, env=None):
        """-> node or None"""
        self.steps += 1
        key = (id(a), p, id(ws), id(env))
        got = self.memo.get(key, self)
        if got is not self:
            if got is LeftRecursion:
                raise LeftRecursion()
            return got
        self.memo[key] = LeftRecursion
        got = self.memo[key] = getattr(self, "m_" + a[0])(a, p, ws, env)
        return got

    # terminals
    def _tok(self, p, q):
        return [PLAIN, "", [self.s[p:q]], p, q]

    def m_lit(self, a, p, ws, env):
        if self.s.startswith(a[1], p):
            return self._tok(p, p + len(a[1]))

    def m_clit(self, a, p, ws, env):
        q = p + len(a[1])
        if self.s[p:q].lower() == a[1].lower() and q <= self.n:
            return [PLAIN, "", [a[1]], p, q]

    def m_kw(self, a, p, ws, env):
        ident = KWCHARS if a[2] is None else a[2]
        q = p + len(a[1])
        if self.s.startswith(a[1], p) and not (q < self.n and self.s[q] in ident):
            return [PLAIN, "", [a[1]], p, q]

    def m_ckw(self, a, p, ws, env):
        ident = KWCHARS if a[2] is None else a[2]
        ident = ident.lower() + ident.upper()
        q = p + len(a[1])
        if (
            q <= self.n
            and self.s[p:q].lower() == a[1].lower()
            and not (q < self.n and self.s[q] in ident)
        ):
            return [PLAIN, "", [a[1]], p, q]

    def m_word(self, a, p, ws, env):
        # ('word', init, body, min, max, exclude)
        init = a[1]
        body = a[2] if len(a) > 2 and a[2] is not None else init
        mn = a[3] if len(a) > 3 else 1
        mx = a[4] if len(a) > 4 and a[4] else BIG
        ex = a[5] if len(a) > 5 else ""
        s, n = self.s, self.n
        if p >= n or s[p] not in init or s[p] in ex:
            return None
        q = p + 1
        while q < n and q - p < mx and s[q] in body and s[q] not in ex:
            q += 1
        if q - p < mn:
            return None
        return self._tok(p, q)

    def m_char(self, a, p, ws, env):
        if p < self.n:
            c = self.s[p]
            if (a[1] and c in a[1] and c not in a[2]) or (not a[1] and c not in a[2]):
                return self._tok(p, p + 1)

    def m_notin(self, a, p, ws, env):
        mn, mx = a[2], a[3] or BIG
        q = p
        while q < self.n and q - p < mx and self.s[q] not in a[1]:
            q += 1
        if q - p >= mn:
            return self._tok(p, q)

    def m_any(self, a, p, ws, env):
        if p < self.n:
            return self._tok(p, p + 1)

    def m_white(self, a, p, ws, env):
        mn, mx = a[2], a[3] or BIG
        q = p
        while q < self.n and q - p < mx and self.s[q] in a[1]:
            q += 1
        if q - p >= max(mn, 1):
            return self._tok(p, q)

    def m_empty(self, a, p, ws, env):
        return [PLAIN, "", [], p, p]

    def m_nomatch(self, a, p, ws, env):
        return None

    def m_ls(self, a, p, ws, env):
        if p == 0 or self.s[p - 1] == "\n":
            return [PLAIN, "", [], p, p]

    def m_le(self, a, p, ws, env):
        s, n = self.s, self.n
        q = p
        if q < n and s[q] == "\r":
            q += 1
        if q == n:
            return [PLAIN, "", ["\n"], p, q]
        if s[q] == "\n":
            return [PLAIN, "", ["\n"], p, q + 1]
        return None

    def m_ss(self, a, p, ws, env):
        if p == 0:
            return [PLAIN, "", [], p, p]

    def m_se(self, a, p, ws, env):
        # only line ends may remain
        q = p
        s, n = self.s, self.n
        while q < n:
            if s.startswith("\r\n", q):
                q += 2
            elif s[q] == "\n":
                q += 1
            else:
                return None
        return [PLAIN, "", [], p, q]

    def m_wstart(self, a, p, ws, env):
        s = self.s
        if p < self.n and s[p] in a[1] and (p == 0 or s[p - 1] not in a[1]):
            return [PLAIN, "", [], p, p]

    def m_wend(self, a, p, ws, env):
        s = self.s
        if p > 0 and s[p - 1] in a[1] and (p >= self.n or s[p] not in a[1]):
            return [PLAIN, "", [], p, p]

    def m_close(self, a, p, ws, env):
        q = p + len(a[1])
        if q <= self.n:
            text = self.s[p:q]
            if sum(1 for x, y in zip(text, a[1]) if x != y) <= a[2]:
                return self._tok(p, q)

    def m_re(self, a, p, ws, env):
        found = re.compile(a[1], re.DOTALL).match(self.s, p)
        if found:
            return self._tok(p, found.end())

    # combinators
    def m_seq(self, a, p, ws, env):
        end = at = p
        kids = []
        for e in a[1:]:
            if end > at:
                at = end if looks_back(e) else self.skip(end, ws)
            r = self.match(e, at, ws, env)
            if r is None:
                return None
            if r[4] == at and optional_like(e, env) and blank(definition(e, r)[2]):
                continue  # nothing was there: the position before the whitespace stands
            kids.append(r)
            end = r[4]
        return [PLAIN, "", kids, p, end]

    def m_alt(self, a, p, ws, env):
        for e in a[1:]:
            r = self.match(e, p, ws, env)
            if r is not None:
                return [PLAIN, "", [r], r[3], r[4]]
        return None

    def m_or(self, a, p, ws, env):
        best = None
        for e in a[1:]:
            r = self.match(e, p, ws, env)
            if r is not None and (best is None or r[4] > best[4]):
                best = r
        if best is not None:
            return [PLAIN, "", [best], best[3], best[4]]

    def m_many(self, a, p, ws, env):
        # ('many', e, min, max [, stop])
        e, mn, mx = a[1:4]
        stop = a[4] if len(a) > 4 else None
        end = p
        kids = []
        while len(kids) < mx and end < self.n:
            at = self.skip(end, ws)
            if stop is not None and self.match(stop, at, ws, env) is not None:
                break
            r = self.match(e, at, ws, env)
            if r is None or r[4] == at:
                break
            kids.append(r)
            end = r[4]
        if len(kids) < mn:
            return None
        return [PLAIN, "", kids, kids[0][3] if kids else p, end]

    def m_opt(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is None:
            return [PLAIN, "", list(a[2:]), p, p]
        return [PLAIN, "", [r], r[3], r[4]]

    def m_not(self, a, p, ws, env):
        if self.match(a[1], p, ws, env) is None:
            return [PLAIN, "", [], p, p]

    def m_look(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is not None:
            return [PLAIN, "", [[r[0] | HIDDEN] + r[1:]], p, p]

    def m_behind(self, a, p, ws, env):
        # ('behind', e [, how far back]): some text ending here matches, the nearest if there are more
        e = a[1]
        f = e
        while f[0] == "name":
            f = f[2]
        length = fixed_length(f)
        if length is not None:
            # at its one place in the whole text
            r = self.match(e, p - length, ws, env) if p >= length else None
            if r is None:
                return None
            return [PLAIN, "", [[r[0] | HIDDEN] + r[1:]], p, p]
        lowest = max(0, p - a[2]) if len(a) > 2 else 0
        m = Model(self.s[:p])
        for q in range(p, lowest - 1, -1):
            r = m.match(e, q, ws, env)
            if r is not None and r[4] == p:
                self.steps += m.steps
                return [PLAIN, "", [[r[0] | HIDDEN] + r[1:]], p, p]
        self.steps += m.steps
        return None

    def m_group(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is not None:
            return [GROUP, "", [r], r[3], r[4]]

    def m_supp(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is not None:
            return [PLAIN, "", [], r[3], r[4]]

    def m_comb(self, a, p, ws, env):
        r = self.match(a[1], p, ws, env)
        if r is not None:
            sep = a[2] if len(a) > 2 else ""
            return [PLAIN, "", [sep.join(leaves([r]))], p, r[4]]

    def m_name(self, a, p, ws, env):
        r = self.match(a[2], p, ws, env)
        if r is not None:
            return [r[0], a[1]] + r[2:]

    def m_rec(self, a, p, ws, env):
        key = (id(a), id(ws))
        env = self.envs.get(key)
        if env is None:
            env = self.envs[key] = (a, ws)  # as it was when it was made
        r = self.match(a[1], p, ws, env)
        if r is not None:
            if r[0] & GROUP and not r[1]:
                return [GROUP, "", r[2], r[3], r[4]]
            return [PLAIN, "", [r], r[3], r[4]]

    def m_self(self, a, p, ws, env):
        return self.match(env[0], p, env[1], None)

    def m_ws(self, a, p, ws, env):
        # ('ws', conf, e): e was defined inside that whitespace context
        return self.match(a[2], p, a[1], env)

    def m_skipto(self, a, p, ws, env):
        # ('skipto', e, include [, ignore [, fail]])
        e, include = a[1], a[2]
        ignore = a[3] if len(a) > 3 else None
        fail = a[4] if len(a) > 4 else None
        q = p
        while q <= self.n:
            text_end = q
            q = self.skip(q, ws)
            if fail is not None and self.match(fail, q, ws, env) is not None:
                return None
            if ignore is not None:
                while True:
                    r = self.match(ignore, q, ws, env)
                    if r is None or r[4] == q:
                        break
                    text_end = r[4]
                    q = self.skip(r[4], ws)
            r = self.match(e, q, ws, env)
            if r is not None:
                text = self.s[p:text_end]
                kids = [text] if text else []
                if include:
                    kids.append(r)
                    return [PLAIN, "", kids, p, r[4]]
                return [PLAIN, "", kids, p, q]
            q += 1
        return None

    def m_all(self, a, p, ws, env):
        """each member once (unlimited repetition: as often as it comes), in any order, the first that fits is taken"""
        members = a[1:]
        count = [0] * len(members)
        kids = []
        end = at = p
        progress = True
        while progress:
            progress = False
            for i, e in enumerate(members):
                if count[i] and not unlimited(e):
                    continue
                r = self.match(e, at, ws, env)
                if r is not None and r[4] > at:
                    kids.append(r)
                    count[i] += 1
                    end = r[4]
                    at = self.skip(end, ws)
                    progress = True
                    break
        for c, e in zip(count, members):
            if not c:
                r = self.match(e, at, ws, env)
                if r is None:
                    return None
                kids.append(r)
        return [PLAIN, "", kids, p, end]

    def m_act(self, a, p, ws, env):
        # ('act', fn-id, e): the action's value replaces the tokens
        r = self.match(a[2], p, ws, env)
        if r is None:
            return None
        return apply_action(a[1], r, self)

    def m_cond(self, a, p, ws, env):
        r = self.match(a[2], p, ws, env)
        if r is not None and CONDITIONS[a[1]](list(items(r[2]))):
            return r


def unlimited(e):
    while e[0] in ("name", "act", "cond", "ws"):
        e = e[2]
    return e[0] == "many" and e[3] == BIG


def optional_like(e, env=None):
    while e[0] in ("name", "act", "cond", "rec", "self", "ws"):
        if e[0] == "self":
            if env is None:
                return False
            e = env[0]
        e = e[1] if e[0] == "rec" else e[2]
    return e[0] == "opt" or e[0] == "many" and e[2] == 0


def definition(e, r):
    # a recursive definition stands for what it is defined as
    while e[0] in ("rec", "self") and len(r[2]) == 1:
        r = r[2][0]
        e = e[1] if e[0] == "rec" else ("",)
    return r


def blank(kids):
    return all(isinstance(k, list) and not k[0] and not k[1] and blank(k[2]) for k in kids)


def ignore_match(ignore, s, p):
    """ignore: ('hash',) -> # to end of line;  ('cc',) -> /* ... */ ; tuples of those are alternatives"""
    for i in ignore:
        if i == "hash" and s.startswith("#", p):
            q = s.find("\n", p)
            return len(s) if q == -1 else q
        if i == "cc" and s.startswith("/*", p):
            q = s.find("*/", p + 2)
            if q != -1:
                return q + 2
        if i == "semi" and s.startswith(";", p):
            return p + 1
    return None


# ------------------------------------------------------------------ reading model results
def items(kids):
    """what iterating a result yields"""
    for k in kids:
        if not isinstance(k, list):
            yield k
        elif k[0] & HIDDEN:
            continue
        elif k[0] & GROUP:
            yield k
        else:
            yield from items(k[2])


def leaves(kids):
    for k in items(kids):
        if isinstance(k, list):
            yield from leaves(k[2])
        else:
            yield k


def nested(kids):
    return [nested(k[2]) if isinstance(k, list) else k for k in items(kids)]


def named(kids, name):
    """the values visible under a name"""
    for k in kids:
        if isinstance(k, list):
            if k[1] == name:
                if k[0] & GROUP:
                    yield k
                else:
                    yield from _flat(k[2])
            elif k[1] or k[0] & GROUP:
                continue
            else:
                yield from named(k[2], name)


def _flat(kids):
    for t in kids:
        if not isinstance(t, list) or t[0] & GROUP or t[1]:
            yield t
        else:
            yield from _flat(t[2])


def names_of(kids):
    for k in kids:
        if isinstance(k, list):
            if k[1]:
                yield k[1]
            elif not k[0] & GROUP:
                yield from names_of(k[2])


def value(v):
    return nested(v[2]) if isinstance(v, list) else v


# ------------------------------------------------------------------ static facts about grammars
try:
    from re._parser import parse as _width
except ImportError:
    from sre_parse import parse as _width


def looks_back(a):
    while a[0] in ("name", "act", "cond"):
        a = a[2]
    return a[0] == "behind"


def fixed_length(a):
    """of a terminal that has one"""
    if a[0] in ("lit", "clit", "kw", "ckw"):
        return len(a[1])
    if a[0] == "char":
        return 1
    if a[0] in ("wstart", "wend", "ss", "look", "not", "behind", "empty"):
        return 0


def nullable(a):
    k = a[0]
    if k in ("empty", "opt", "not", "look", "behind", "ls", "ss", "se", "le", "wstart", "wend"):
        return True
    if k == "seq":
        return all(map(nullable, a[1:]))
    if k in ("alt", "or"):
        return any(map(nullable, a[1:]))
    if k == "all":
        return all(map(nullable, a[1:]))
    if k == "many":
        return a[2] == 0 or nullable(a[1])
    if k in ("group", "supp", "comb", "rec"):
        return nullable(a[1])
    if k in ("name", "act", "cond", "ws"):
        return nullable(a[2])
    if k == "skipto":
        return not a[2] or nullable(a[1])
    if k == "notin":
        return a[2] == 0
    if k == "re":
        return _width(a[1]).getwidth()[0] == 0
    return False  # terminals, nomatch, self (one unrolling)


def subs(a):
    for e in a[1:]:
        if isinstance(e, tuple) and e and isinstance(e[0], str) and e[0] in KINDS:
            yield e


def size(a):
    return 1 + sum(size(e) for e in subs(a))


def contains(a, kinds):
    return a[0] in kinds or any(contains(e, kinds) for e in subs(a))


def left_recursive(a):
    """can the recursive definition a=('rec', body) reach itself without consuming?"""

    def reach(e):
        # True if ('self',) can be met at the very start of e
        k = e[0]
        if k == "self":
            return True
        if k == "seq":
            for x in e[1:]:
                if reach(x):
                    return True
                if not null(x):
                    return False
            return False
        return any(reach(x) for x in subs(e))

    memo = {}

    def null(e):
        # least fixpoint: the recursive occurrence is assumed to be non-nullable first
        if e[0] == "self":
            return memo.get("self", False)
        k = e[0]
        if k == "seq":
            return all(map(null, e[1:]))
        if k in ("alt", "or"):
            return any(map(null, e[1:]))
        if k == "many":
            return e[2] == 0 or null(e[1])
        if k in ("group", "supp", "comb"):
            return null(e[1])
        if k in ("name", "act", "cond", "ws"):
            return null(e[2])
        return nullable(e)

    memo["self"] = False
    while True:
        v = null(a[1])
        if v == memo["self"]:
            break
        memo["self"] = v
    return reach(a[1])


KINDS = {n[2:] for n in dir(Model) if n.startswith("m_")}

# ------------------------------------------------------------------ parse actions known to model and builder
ACTIONS = {
    # id: (function of the flat token list and the matched text) -> replacement or None
    "none": lambda toks: None,
    "upper": lambda toks: [t.upper() if isinstance(t, str) else t for t in toks],
    "join": lambda toks: "<" + "".join(x if isinstance(x, str) else "G" for x in toks) + ">",
    "zero": lambda toks: 0,
    "drop": lambda toks: [],
    "pair": lambda toks: ("p", len(toks)),
    "nothing": lambda toks: "",
    "false": lambda toks: False,
    "nones": lambda toks: [None, ""],
}
CONDITIONS = {
    "even": lambda toks: len(toks) % 2 == 0,
    "two": lambda toks: bool(toks) and isinstance(toks[0], str) and len(toks[0]) == 2,
    "never": lambda toks: False,
    "always": lambda toks: True,
}


def apply_action(ident, r, model):
    got = ACTIONS[ident](list(items(r[2])))
    if got is None:
        return r
    if isinstance(got, (list, tuple)):
        return [r[0], r[1], list(got), r[3], r[4]]
    return [r[0], r[1], [got], r[3], r[4]]
