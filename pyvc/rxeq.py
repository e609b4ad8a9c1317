"""Do two regular expressions take every string apart in the same way?

re.match (or fullmatch) with a pattern is seen as a function from strings to
strings: the input, with marks where each group begins and ends and where the
match ends, or a mark for "no match".  The function is a finite-state
transducer (see fst), so that equality is decided for strings of any length.
"""
import re

from . import fst
from .fst import sc, sre_parse

MARK, END, NO = 0xE000, chr(0xE100), chr(0xE101)


class GroupMachine(fst.RegexMachine):
    """One pattern, matched at the beginning; groups are marked."""

    def __init__(self, src, flags, full):
        nfa = self.nfa = fst.NFA()
        p = sre_parse.parse(src, flags)
        items = list(p)
        while items and items[0][0] is sc.AT and (
                items[0][1] is sc.AT_BEGINNING_STRING
                or items[0][1] is sc.AT_BEGINNING
                and not p.state.flags & re.M):
            del items[0]
        acc = nfa.new("acc")
        end = nfa.new("mark", END, None, acc)
        if full:
            end = nfa.new("end", "Z", None, end)
        self.start = nfa.seq(items, end, p.state.flags,
                             dict(copy=True, depth=0, marks=True))
        self.tests = list(nfa.tests)
        if any(n.kind == "end" and n.a == "$" for n in nfa.nodes):
            self.tests.append(fst.CharTest.chars("\n"))
        self._order()


def transducer(machine, alpha):
    machine.build(alpha.letters)
    f = fst.FST()
    ids, todo = {}, []

    def state(mode, v):
        k = (mode, v)
        if k not in ids:
            ids[k] = f.add()
            todo.append(k)
        return ids[k]

    def mode_of(node):
        return "rest" if node is None else node.id

    for v in machine.states:
        if machine.start.id in v[0]:
            text, node = machine.follow(machine.start, v)
            f.starts.append((state(mode_of(node), v), tuple(text)))
        else:
            f.starts.append((state("rest", v), (NO,)))
    nodes = machine.nfa.nodes
    while todo:
        mode, v = todo.pop()
        s = ids[mode, v]
        if mode == "rest" and v == machine.end:
            f.final[s] = ()
        for c in alpha.letters:
            for v1 in machine.pred.get((v, c), ()):
                if mode == "rest":
                    f.arcs[s].append((c, (c,), state("rest", v1)))
                    continue
                node = nodes[mode]
                if not node.a(c) or node.next.id not in v1[0]:
                    continue
                text, nn = machine.follow(node.next, v1)
                f.arcs[s].append((c, (c,) + tuple(text),
                                  state(mode_of(nn), v1)))
    return f.trim().merge_states()


def difference(p, p_how, q, q_how, domain=None):
    """None if both patterns (compiled) match alike on every string (of the
    domain, a pattern), else a string on which they differ."""
    machines = [GroupMachine(x.pattern, x.flags & ~re.U, how == "fullmatch")
                for x, how in ((p, p_how), (q, q_how))]
    dom = domain and fst.RegexMachine([(domain, 0, None)])
    tests = [t for m in machines + ([dom] if dom else []) for t in m.tests]
    alpha = fst.Alphabet(tests)
    if any(ord(c) >= MARK and ord(c) < MARK + 0x200 for c in alpha.letters):
        raise fst.Unsupported("marks are in use")
    a, b = [transducer(m, alpha) for m in machines]
    if dom:
        a, b = [fst.restrict(x, alpha, dom) for x in (a, b)]
    words = fst.equivalent(a, b)
    if words is None:
        return None
    for w in words:
        s = "".join(w)
        x, y = [getattr(z, how)(s) for z, how in ((p, p_how), (q, q_how))]
        if (x is None) != (y is None) or x is not None and (
                x.span() != y.span() or x.regs != y.regs):
            return s
    raise fst.Unsupported("difference not confirmed")
