# encoding: utf-8
"""
Replay: every execution of the reference model (mc.peg) is run on the implementation and compared.

A case is (ast, style, string, parse_all).
"""
from mc import peg
from mc.build import Builder, build, run, FAIL, tree, val, attempt, ParseResults

WHITE = " \n\r\t"


def expect(ast, s, ws=peg.STD):
    """-> (root node or None, model).  The root is what `parse` starts from, after leading whitespace"""
    m = peg.Model(s)
    start = m.skip(0, ws)
    return m.match(ast, start, ws), m


def accepts_all(m, end, ws=peg.STD):
    """parse_all: only whitespace and line ends may follow"""
    p = m.skip(end, ws)
    return m.m_se(("se",), p, ws, None) is not None


def settle(s, p, white=WHITE):
    """positions are compared modulo the insignificant text that follows"""
    while p < len(s) and s[p] in white:
        p += 1
    return p


def show(node):
    if node is None:
        return FAIL
    return ("match", node[4], peg.nested([node]))


class Conformance(object):
    """
    what: set of "recog", "end", "tree", "list", "names", "all"
    """

    MODEL = peg.Model
    BUILDER = Builder

    def __init__(self, rep, what, ws=peg.STD, names=(), settle=settle, top_ws=None):
        self.rep = rep
        self.what = what
        self.ws = ws
        self.top_ws = top_ws or ws
        self.names = names
        self.settle = settle
        self.states = set()

    def top(self, ast):
        return self.top_ws

    def grammar(self, ast, style, inputs, share=None):
        rep = self.rep
        rep.begin((ast, style, "", False))
        ok, parser = attempt(lambda: self.BUILDER(style, share)(ast).finalize())
        rep.end()
        if not ok:
            rep.violation((ast, style, "", False), "the grammar can be made", parser)
            return
        rep.add("grammars")
        for s in inputs:
            self.one(ast, style, parser, s)

    def one(self, ast, style, parser, s):
        rep = self.rep
        what = self.what
        m = self.MODEL(s)
        top_ws = self.top(ast)
        start = m.skip(0, top_ws)
        node = m.match(ast, start, self.ws)
        a = ast
        while node is not None and a[0] == "many" and a[2:] == (1, 1):
            # exactly one of something is that thing
            a, node = a[1], node[2][0]
        rep.add("states", len(m.memo) + 1)
        rep.add("transitions", m.steps)
        rep.add("traces_validated_against_impl")
        case = (ast, style, s, False)
        rep.begin(case)
        got = run(parser, s)
        self.compare(case, node, got, s)
        if "all" in what:
            case = (ast, style, s, True)
            rep.begin(case)
            got = run(parser, s, True)
            rep.add("traces_validated_against_impl")
            if node is not None and not accepts_all(m, node[4], top_ws):
                node = None
            self.compare(case, node, got, s)
        rep.end()

    def compare(self, case, node, got, s):
        rep = self.rep
        what = self.what
        if isinstance(got, tuple):
            if node is not None or got is not FAIL:
                rep.violation(case, show(node), got)
            else:
                rep.outcome("no match")
            return
        if node is None:
            ok, t = attempt(lambda: tree(got))
            rep.violation(case, FAIL, ("match", got.end, t))
            return
        rep.outcome("match")
        ok, problem = attempt(lambda: self.details(case, node, got, s))
        if not ok:
            rep.violation(case, show(node), problem, note="while reading the result")

    def details(self, case, node, got, s):
        rep = self.rep
        what = self.what
        if "end" in what:
            x, y = self.settle(s, node[4]), self.settle(s, got.end)
            if x != y:
                rep.violation(case, show(node), ("match", got.end, tree(got)), note="end of match")
                return
        if "tree" in what:
            x = peg.nested([node])
            # a top level group is the result itself
            y = tree(got)
            top = node[0] & peg.GROUP and not node[1]
            if top:
                x = x[0]
            if x != y:
                rep.violation(case, x, y, note="tokens")
                return
            if x:
                rep.outcome("%d tokens" % len(x))
        if "list" in what:
            z = got.as_list()
            if node[0] & peg.GROUP or node[1]:
                # a group lists itself as one item; so does the wrapper kept for a name at the top
                z = z[0] if len(z) == 1 else z
            if z != y:
                rep.violation(case, y, z, note="as_list")
                return
            if got.length() != len(y) or len(got) != len(y):
                rep.violation(case, len(y), (got.length(), len(got)), note="length")
                return
        if "names" in what:
            self.check_names(case, node, got)

    def check_names(self, case, node, got):
        rep = self.rep
        kids = [node]
        if node[1]:
            pass  # the parser keeps a wrapper when the whole expression is named
        elif node[0] & peg.GROUP:
            kids = node[2]
        for n in self.names:
            vals = list(peg.named(kids, n))
            v = got[n]
            if len(vals) == 1:
                want, have = [peg.value(vals[0])], [val(v)]
            else:
                # several values are read by iterating them, which looks through named parts
                want, have = peg.nested(vals), val(v)
            if have != want:
                rep.violation(case, (n, want), have, note="value by name")
                return
            if vals:
                rep.outcome("name with %d values" % len(vals))
