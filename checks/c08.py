# encoding: utf-8
"""infix_notation"""
import itertools
import re

from mc import conform
from mc.build import attempt, run, FAIL, tree, Literal, Suppress, Word, Regex, Group, CaselessKeyword, Keyword
from mc.universe import strings, part
from mo_parsing import infix_notation, LEFT_ASSOC, RIGHT_ASSOC

PID = "C08"
LEVEL = "model_checking"
RULE = (
    "every operator table of up to R rows over the kinds prefix, postfix, binary left, binary right, ternary left, ternary right, juxtaposition (suppressed or not, the same symbol in two roles), "
    "every string of up to K tokens of operands, operators and parentheses, tight and spaced: tree, end and failure against a precedence-climbing parser"
)
ASSUMPTIONS = [
    "bounds: rows and tokens as in the plan",
    "where an operand is of a looser row than its operator without parentheses (1 * - 1 + 1 with the - loosest) and more than one tree is possible, the table does not say which; then only end and leaves are compared",
    "prefix and postfix operators are tried before binary ones, as a postfix operator is taken when it can be; what stands between the two signs of a ternary is complete in itself",
]

L, R = LEFT_ASSOC, RIGHT_ASSOC

# kind: (symbols, arity, associativity)
KINDS = {
    "pre-": (("-",), 1, R),
    "pre~": (("~",), 1, R),
    "post!": (("!",), 1, L),
    "post%": (("%",), 1, L),
    "left-": (("-",), 2, L),
    "left*": (("*",), 2, L),
    "left+": (("+",), 2, L),
    "right^": (("^",), 2, R),
    "right-": (("-",), 2, R),
    "right**": (("**",), 2, R),
    "tern?": (("?", ":"), 3, R),
    "ltern?": (("?", ":"), 3, L),
    "pre**": (("**",), 1, R),
    "post**": (("++",), 1, L),
    "none": ((None,), 2, L),
}


def suppressed(symbols, how):
    if "all" in how:
        return tuple(Suppress(s) for s in symbols)
    if "obj" in how:
        return tuple(Literal(s) for s in symbols)
    return symbols


def actions_of(how):
    """a digit is how many actions there are on the row"""
    return "fg"[: int(how[-1])] if how[-1:].isdigit() else ""


def parens(table):
    return ("[[", "]") if ("paren", "[[") in table else ("(", ")")


def operand(table):
    """the operand as it is found in the tree"""
    return {"1": "x", "2": "y"} if ("operand", "act") in table else {"1": "1", "2": "2"}


def rows_of(table):
    return [(k, how) for k, how in table if k in KINDS]


def show(value):
    """of a tree; a group of one thing is that thing"""
    if not isinstance(value, list):
        return value
    if len(value) == 1:
        return show(value[0])
    return "[%s]" % " ".join(show(v) for v in value)


class Calls(object):
    """what the actions of the rows are called with"""

    def __init__(self):
        self.wrong = []

    def action(self, name):
        def action(tokens, loc, string):
            shown = show(tree(tokens))
            first = re.sub(r"^[\[fgxy]*", "", shown)[:1]
            if not (0 <= loc < len(string) and string[loc] != " "):
                self.wrong.append((name, "called for a place where nothing is", loc, string, shown))
            elif first in "-~" and string[loc:].lstrip("([ ")[:1] != first:
                self.wrong.append((name, "called for another place", loc, string, shown))
            return name + shown

        return action


def make(table, calls):
    spec = []
    for kind, how in rows_of(table):
        symbols, arity, assoc = KINDS[kind]
        if how:
            symbols = suppressed(symbols, how)
        row = (symbols if arity == 3 else symbols[0], arity, assoc)
        actions = [calls.action(n) for n in actions_of(how)]
        if actions:
            row += (actions[0] if len(actions) == 1 else actions,)
        spec.append(row)
    base = Word("12", exact=1)
    if ("operand", "act") in table:
        base = base.add_parse_action(lambda tokens: {"1": "x", "2": "y"}[tokens[0]])
    more = {}
    if ("paren", "[[") in table:
        more = dict(lpar=Literal("[["), rpar=Literal("]"))
    return infix_notation(base, spec, **more).finalize()


class Reference(object):
    """precedence climbing over the text, with ordered choice: nothing is ever given back but an operator without operand"""

    def __init__(self, table, s):
        self.s = s
        self.rows = [(KINDS[k], how, i) for i, (k, how) in enumerate(rows_of(table))]
        self.lpar, self.rpar = parens(table)
        self.operand = operand(table)
        self.steps = 0
        self.settled = True  # the table says which tree it is

    def skip(self, p):
        while p < len(self.s) and self.s[p] in " ":
            p += 1
        return p

    # ---- a flat list of items, as far as it is well formed
    def prefixes(self, p):
        out = []
        while True:
            q = self.skip(p) if out else p
            for (symbols, arity, assoc), how, i in self.rows:
                if arity == 1 and assoc is R and self.s.startswith(symbols[0], q):
                    out.append(("op", "pre", i, symbols[0]))
                    p = q + len(symbols[0])
                    break
            else:
                return out, p

    def postfixes(self, p):
        out = []
        while True:
            q = self.skip(p)
            for (symbols, arity, assoc), how, i in self.rows:
                if arity == 1 and assoc is L and self.s.startswith(symbols[0], q):
                    out.append(("op", "post", i, symbols[0]))
                    p = q + len(symbols[0])
                    break
            else:
                return out, p

    def decorated(self, p):
        self.steps += 1
        pre, p = self.prefixes(p)
        if pre:
            p = self.skip(p)
        s = self.s
        if p < len(s) and s[p] in "12":
            item, p = ("val", self.operand[s[p]]), p + 1
        elif s.startswith(self.lpar, p):
            got = self.expression(self.skip(p + len(self.lpar)))
            if got is None:
                return None
            value, q = got
            q = self.skip(q)
            if not s.startswith(self.rpar, q):
                return None
            item, p = ("val", value), q + len(self.rpar)
        else:
            return None
        post, p = self.postfixes(p)
        return pre + [item] + post, p

    def expression(self, p):
        got = self.decorated(p)
        if got is None:
            return None
        items, p = got
        while True:
            more = self.more(p)
            if more is None:
                break
            items, p = items + more[0], more[1]
        todo = Climb(items, self.rows)
        value, row = todo.climb(len(self.rows))
        assert todo.at == len(items), (items, todo.at)
        if not todo.layered and ways(items) > 1:
            self.settled = False
        return value, p

    def more(self, p):
        at = self.skip(p)
        for (symbols, arity, assoc), how, i in self.rows:
            if arity == 3 and self.s.startswith(symbols[0], at):
                mid = self.expression(self.skip(at + len(symbols[0])))
                if mid is None:
                    continue
                q = self.skip(mid[1])
                if not self.s.startswith(symbols[1], q):
                    continue
                last = self.decorated(self.skip(q + len(symbols[1])))
                if last is None:
                    continue
                return [("tern", i, symbols, mid[0])] + last[0], last[1]
        best = None
        for (symbols, arity, assoc), how, i in self.rows:
            if arity == 2:
                s = symbols[0] or ""
                if self.s.startswith(s, at) and (best is None or len(s) > len(best[1])):
                    best = i, s
        if best is None:
            return None
        q = at + len(best[1])
        last = self.decorated(self.skip(q))
        if last is None:
            return None
        return [("op", "bin", best[0], best[1])] + last[0], last[1]


class Climb(object):
    def __init__(self, items, rows):
        self.items = items
        self.rows = rows
        self.at = 0
        self.layered = True

    def peek(self):
        return self.items[self.at] if self.at < len(self.items) else None

    def node(self, i, *parts):
        """parts: operands and ('sign', text, index in the row)"""
        how = self.rows[i][1]
        value = [p[1] if isinstance(p, tuple) else p for p in parts if not (isinstance(p, tuple) and ("all" in how or p[1] == ""))]
        for name in actions_of(how):
            value = [name + show(value)]
        return value

    def climb(self, loosest, tighter_only=False):
        """an expression made of operators of rows up to `loosest` (prefix operators may be of any row); the tree and the row it belongs to"""
        item = self.peek()
        self.at += 1
        if item[0] == "op":
            row = item[2]
            value, below = self.climb(row)
            self.need(below <= row)
            value = self.node(row, ("sign", item[3]), value)
        else:
            value, row = item[1], -1
        while True:
            item = self.peek()
            if item is None:
                break
            i = item[1] if item[0] == "tern" else item[2]
            if i > loosest or (i == loosest and tighter_only):
                break
            right = self.rows[i][0][2] is R
            self.at += 1
            if item[0] == "op" and item[1] == "post":
                self.need(row <= i)
                value, row = self.node(i, value, ("sign", item[3])), i
                continue
            last, below = self.climb(i, not right)
            self.need(row < i if right else row <= i)
            self.need(below <= i if right else below < i)
            if item[0] == "tern":
                value = self.node(i, value, ("sign", item[2][0]), item[3], ("sign", item[2][1]), last)
            else:
                value = self.node(i, value, ("sign", item[3]), last)
            row = i
        return value, row

    def need(self, ok):
        """a tree where every operand is of its own or a tighter row: the only one the table allows"""
        if not ok:
            self.layered = False


def ways(items):
    """how many trees there are over the items when precedence says nothing"""
    known = {}

    def count(a, b):
        if (a, b) not in known:
            if b - a == 1:
                n = int(items[a][0] == "val")
            else:
                n = 0
                if items[a][:2] == ("op", "pre"):
                    n += count(a + 1, b)
                if b > a and items[b - 1][:2] == ("op", "post"):
                    n += count(a, b - 1)
                for m in range(a + 1, b - 1):
                    if items[m][0] == "tern" or items[m][:2] == ("op", "bin"):
                        n += count(a, m) * count(m + 1, b)
            known[a, b] = n
        return known[a, b]

    return count(0, len(items))


def want(table, s):
    r = Reference(table, s)
    got = r.expression(r.skip(0))
    if got is None:
        return FAIL, True, r.steps
    value, end = got
    # a tree that is one operation is itself the group
    return (end, [value] if isinstance(value, str) else value), r.settled, r.steps


def leaves(value):
    return [leaf for v in value for leaf in leaves(v)] if isinstance(value, list) else [value]


def bare(value):
    """a whole text in parentheses is one group more than the same without them"""
    while isinstance(value, list) and len(value) == 1 and isinstance(value[0], list):
        value = value[0]
    return value


def tokens_of(table):
    out = ["1", "2", *parens(table)]
    for k, _ in rows_of(table):
        for s in KINDS[k][0]:
            if s and s not in out:
                out.append(s)
    return out


def clash(table):
    """roles that only one row may have, or nothing says which row is meant"""
    seen = set()
    for k, _ in table:
        symbols, arity, assoc = KINDS[k]
        role = "pre" if arity == 1 and assoc is R else "post" if arity == 1 else "bin"
        for s in symbols:
            if (role, s) in seen:
                return True
            seen.add((role, s))
    names = [k for k, _ in table]
    if "none" in names and any(KINDS[k][1] == 1 for k in names) and len(names) > 2:
        return False
    return False


def tables(rows, kinds, hows, extra=()):
    for ks in itertools.permutations(kinds, rows):
        for hs in itertools.product(hows, repeat=rows):
            t = tuple((k, h) for k, h in zip(ks, hs))
            if any(k == "none" and h not in ("", "1", "2") for k, h in t):
                continue
            if not clash(t):
                yield t + extra


MAIN = ("pre-", "post!", "left-", "left*", "right^", "tern?")
ALL = tuple(KINDS)

PLAN = {
    "quick": [
        (0, ALL, ("",), 4, " "), (1, ALL, ("", "all", "obj"), 4, " "), (1, ALL, ("",), 5, ""), (2, ALL, ("",), 3, ""), (2, MAIN, ("", "all"), 4, ""), (3, MAIN, ("",), 4, ""), (2, ("pre-", "left-", "post!", "none"), ("",), 3, " "),
        (1, ALL, ("1", "2", "all1", "obj2"), 4, " "), (2, MAIN, ("", "1", "2"), 4, ""), (2, MAIN, ("1",), 3, " ", ("operand", "act")), (1, ALL, ("",), 4, " ", ("paren", "[[")), (2, MAIN, ("",), 4, "", ("paren", "[["), ("operand", "act")),
    ],
    "thorough": [
        (1, ALL, ("", "all", "obj"), 5, " "), (1, ALL, ("",), 7, ""), (2, ALL, ("", "all", "obj"), 4, " "), (2, ALL, ("",), 5, ""), (2, MAIN, ("",), 6, ""), (3, MAIN, ("", "all"), 4, ""), (3, MAIN, ("",), 5, ""), (3, ALL, ("",), 4, ""), (4, MAIN, ("",), 4, ""),
        (1, ALL, ("1", "2", "all1", "all2", "obj1", "obj2"), 5, " "), (2, MAIN, ("", "1", "2"), 5, ""), (3, MAIN, ("", "1"), 4, ""), (2, ALL, ("1", "2"), 4, "", ("operand", "act")), (2, MAIN, ("",), 5, "", ("paren", "[[")), (3, MAIN, ("",), 4, "", ("paren", "[["), ("operand", "act")),
    ],
}


def interesting(toks):
    """two operands are told apart only where that matters: the first operand is 1"""
    for t in toks:
        if t == "1":
            return True
        if t == "2":
            return False
    return True


def texts(table, n, space):
    for k in range(n + 1):
        for toks in itertools.product(tokens_of(table), repeat=k):
            if interesting(toks):
                yield "".join(toks)
                if space and k > 1:
                    yield " ".join(toks)


def shards(tier):
    out = []
    for i, (rows, kinds, hows, n, space, *extra) in enumerate(PLAN[tier]):
        ts = sum(1 for _ in tables(rows, kinds, hows))
        k = max(1, min(128, ts // 2))
        out.extend((tier, i, j, k) for j in range(k))
    return out


def one(table, inputs, rep):
    case = (table, "")
    rep.begin(case)
    calls = Calls()
    ok, parser = attempt(lambda: make(table, calls))
    if not ok:
        rep.violation(case, "the table can be used", parser)
        return
    rep.add("tables")
    for s in inputs:
        case = (table, s)
        rep.begin(case, 10)
        expected, settled, steps = want(table, s)
        del calls.wrong[:]
        got = run(parser, s)
        if calls.wrong:
            rep.violation(case, "actions called for the operations they are of", calls.wrong)
            return
        rep.add("states", steps + 1)
        rep.add("transitions", steps + 1)
        rep.add("traces_validated_against_impl")
        have = got
        if not isinstance(got, tuple):
            have = (got.end, tree(got))
            rep.outcome("nested" if any(isinstance(t, list) for t in have[1]) else "flat")
        else:
            rep.outcome("no match")
        if have != FAIL and expected != FAIL:
            expected = (conform.settle(s, expected[0]), bare(expected[1]))
            have = (conform.settle(s, have[0]), bare(have[1])) if not isinstance(got, tuple) else have
            if not settled:
                rep.add("leaves_only")
                acted = any(actions_of(how) for k, how in table)
                expected, have = [(e, () if acted else leaves(t)) for e, t in (expected, have)]
        if have != expected:
            rep.violation(case, expected, have)
            return
    rep.end()


def run_shard(shard, tier, rep):
    t, i, j, k = shard
    rows, kinds, hows, n, space, *extra = PLAN[t][i]
    for x, table in enumerate(part(tables(rows, kinds, hows, tuple(extra)), j, k)):
        one(table, texts(table, n, space), rep)
        if i == 1 and j == x == 0:
            rep.sample("%r over all strings of %d tokens of %r" % (table, n, tokens_of(table)))


def replay(case, rep):
    one(case[0], [case[1]], rep)
