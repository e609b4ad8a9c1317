"""Bridge from string terms extracted from code to transducers."""
import re

from . import fst
from .core import Str, Unsupported, strof, z3


def children_str(t):
    return [c for c in t.children()]


class Builder:
    """Builds transducers for terms over one string variable."""

    def __init__(self, rewrites, var, extra_machines=(), extra_chars="",
                 sep=False):
        self.rewrites = rewrites
        self.var = var
        self.sep = sep
        self.machines = {}
        self.extra = list(extra_machines)
        self.tests = []
        self.chars = extra_chars
        self.charfns = []
        self.alpha = None

    # first pass: collect character tests
    def scan(self, t, var=None):
        var = var if var is not None else self.var
        if t.eq(var):
            return
        if z3.is_string_value(t):
            self.chars += strof(t)
            return
        name = t.decl().name()
        spec = self.rewrites.get(name)
        if spec is not None:
            if spec[0] == "re":
                m = fst.RegexMachine(spec[1])
                self.tests += m.tests
                for _, _, tmpl in spec[1]:
                    self.chars += tmpl or ""
            elif spec[0] == "split":
                self.chars += spec[1]
                self.sep = True
            elif spec[0] == "map":
                self.scan(spec[2], spec[1])
            elif spec[0] == "charmap":
                self.charfns.append(spec[1])
        for c in t.children():
            self.scan(c, var)

    def finish(self):
        tests = list(self.tests)
        for m in self.extra:
            tests += m.tests
        for fn in self.charfns:
            # characters that fn changes, found by trying every one
            special = [chr(i) for i in range(0x110000)
                       if not 0xd800 <= i < 0xe000 and fn(chr(i)) != chr(i)]
            if len(special) > 200:
                raise Unsupported("character function changes too much")
            self.chars += "".join(special)
            for c in special:
                self.chars += fn(c)
        for c in sorted(set(self.chars)):
            tests.append(fst.CharTest.chars(c))
        self.alpha = fst.Alphabet(tests, sep=self.sep)
        return self.alpha

    def build(self, t, var=None):
        var = var if var is not None else self.var
        al = self.alpha
        if t.eq(var):
            return fst.identity(al)
        if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
            pre, post, mid = "", "", None
            for c in t.children():
                if z3.is_string_value(c):
                    if mid is None:
                        pre += strof(c)
                    else:
                        post += strof(c)
                elif mid is None:
                    mid = c
                else:
                    raise Unsupported("concatenation of two variable parts")
            return fst.compose(self.build(mid, var), fst.affix(al, pre, post))
        spec = self.rewrites.get(t.decl().name())
        if spec is None:
            raise Unsupported("no transducer for %s" % t.decl().name())
        sub = self.build(t.arg(0), var)
        if spec[0] == "re":
            return fst.compose(sub, fst.regex_sub(al,
                                                  fst.RegexMachine(spec[1])))
        if spec[0] == "charmap":
            return fst.compose(sub, fst.charmap(al, spec[1]))
        if spec[0] == "split":
            f = fst.charmap(al, lambda c: c)
            f.arcs[0] = [(c, (fst.SEP,) if c == spec[1] else (c,), 0)
                         for c in al.letters if c != fst.SEP]
            return fst.compose(sub, f)
        if spec[0] == "map":
            return fst.compose(sub, self.build(spec[2], spec[1]))
        if spec[0] == "droplast":
            return fst.compose(sub, fst.drop_last_part(al))
        raise Unsupported("rewrite %s" % spec[0])


def regex(src, flags=0):
    return fst.RegexMachine([(src, flags, None)])


def subst(pairs):
    """Simultaneous replacement, leftmost first."""
    return fst.RegexMachine([(re.escape(a), 0, b.replace("\\", "\\\\"))
                             for a, b in pairs])


def _contains_rx(text):
    return "(?s).*" + re.escape(text) + ".*\\Z"


def conditions(builder, pc):
    """Path condition as a list of (function term, machine builder, negate)
    or raise Unsupported.  Recognised atoms only."""
    out = []
    for c in pc:
        for a in _split_and(c):
            t = _atom(a)
            if t is not None:
                out.append(t)
    return out


def _split_and(c):
    if z3.is_and(c):
        r = []
        for x in c.children():
            r += _split_and(x)
        return r
    return [c]


def _atom(a):
    neg = False
    while z3.is_not(a):
        neg = not neg
        a = a.arg(0)
    if z3.is_app_of(a, z3.Z3_OP_SEQ_CONTAINS) and \
            z3.is_string_value(a.arg(1)):
        return (a.arg(0), ("rx", _contains_rx(strof(a.arg(1)))), neg)
    if z3.is_app_of(a, z3.Z3_OP_SEQ_PREFIX) and \
            z3.is_string_value(a.arg(0)):
        return (a.arg(1), ("rx", "(?s)" + re.escape(strof(a.arg(0)))
                           + ".*\\Z"), neg)
    if z3.is_app_of(a, z3.Z3_OP_SEQ_SUFFIX) and \
            z3.is_string_value(a.arg(0)):
        return (a.arg(1), ("rx", "(?s).*" + re.escape(strof(a.arg(0)))
                           + "\\Z"), neg)
    if z3.is_eq(a):
        x, y = a.arg(0), a.arg(1)
        if z3.is_string_value(x):
            x, y = y, x
        if z3.is_string_value(y):
            if x.num_args() == 1 and x.decl().name() == "strip" \
                    and strof(y) == "":
                return _blank(x.arg(0), neg)
            return (x, ("rx", re.escape(strof(y)) + "\\Z"), neg)
    n = _count_atom(a)
    if n is not None:
        t, yes = n
        return (t, ("sep", yes), neg)
    n = _index_atom(a)
    if n is not None:
        if n is True and not neg:
            return None
        if n is not True:
            t, sub, yes = n
            return (t, ("rx", _contains_rx(sub)), neg == yes)
    if not neg and _strip_axiom(a):
        return None
    raise Unsupported("condition %s" % a)


def _strip_axiom(a):
    """Length(strip(t)) <= Length(t), noted when strip is called."""
    if a.num_args() != 2 or not z3.is_le(a):
        return False
    x, y = a.arg(0), a.arg(1)
    if not (z3.is_app_of(x, z3.Z3_OP_SEQ_LENGTH)
            and z3.is_app_of(y, z3.Z3_OP_SEQ_LENGTH)):
        return False
    x = x.arg(0)
    return (x.num_args() == 1 and x.decl().name() in (
        "strip", "lstrip", "rstrip") and x.arg(0).eq(y.arg(0)))


def _blank(t, neg):
    if t.num_args() == 1 and t.decl().name() == "lastpart":
        return (t.arg(0), ("last", "\\s*\\Z"), neg)
    return (t, ("rx", "\\s*\\Z"), neg)


def _count_atom(a):
    """nparts(t) > 1 and its variants -> (t, True)."""
    k = a.decl().kind()
    if k not in (z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_LE,
                 z3.Z3_OP_EQ):
        return None
    x, y = a.arg(0), a.arg(1)
    sub = None
    for e in (x, y):
        if e.num_args() == 1 and e.decl().name() == "nparts":
            sub = e
    if sub is None:
        return None
    # the number of parts is at least 1: evaluate the atom for 1, 2, 3
    v = []
    for n in (1, 2, 3):
        r = z3.simplify(z3.substitute(a, (sub, z3.IntVal(n))))
        v.append(z3.is_true(r))
    if v == [False, True, True]:
        return sub.arg(0), True
    if v == [True, False, False]:
        return sub.arg(0), False
    if v == [True, True, True]:
        return None
    return None


def _index_atom(a):
    """find/rfind(t, sub) >= 0 and its variants -> (t, sub, True); True if
    the atom holds for every result."""
    if a.num_args() != 2:
        return None
    call = other = None
    for e, o in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
        if z3.is_app(e) and e.decl().name() in ("find", "rfind") \
                and e.num_args() == 2 and z3.is_string_value(e.arg(1)):
            call, other = e, o
    if call is None or not z3.is_int_value(other):
        return None
    v = []
    for n in (-1, 0, 1, 2, 3):
        r = z3.simplify(z3.substitute(a, (call, z3.IntVal(n))))
        v.append(z3.is_true(r))
    if all(v):
        return True
    if v == [False] + [True] * 4:
        return call.arg(0), strof(call.arg(1)), True
    if v == [True] + [False] * 4:
        return call.arg(0), strof(call.arg(1)), False
    return None


class Function:
    """A string function extracted from code: union over its paths."""

    def __init__(self, x, var, paths, machines=(), chars="", sep=False):
        self.b = Builder(x.rewrites, var, machines, chars, sep)
        self.paths = []
        conds = []
        same = all(t.eq(paths[0][1]) for pc, t in paths)
        for pc, term in paths:
            # a result that does not depend on the path needs no conditions
            cs = [] if same else conditions(self.b, pc)
            self.paths.append((cs, term))
            self.b.scan(term)
            for t, m, neg in cs:
                self.b.scan(t)
                if m[0] in ("rx", "last"):
                    self.b.extra.append(regex(m[1]))
                if m[0] in ("sep", "last"):
                    self.b.sep = True
        self.alpha = self.b.finish()
        total = None
        for cs, term in self.paths:
            f = self.b.build(term)
            for t, m, neg in cs:
                g = self.b.build(t)
                if m[0] == "rx":
                    if self.b.sep and _is_parts(t):
                        raise Unsupported("condition on list")
                    d = fst.restrict(fst.identity(self.alpha), self.alpha,
                                     regex(m[1]), neg)
                elif m[0] == "sep":
                    d = fst.has_sep(self.alpha, m[1] != neg)
                else:
                    d = fst.last_part(self.alpha, regex(m[1]), neg)
                f = fst.restrict_by(f, fst.compose(g, d))
            if fst.is_empty(f):
                continue
            total = f if total is None else fst.union(total, f)
        self.fst = total


def of_term(x, var, term, pc, machines=(), chars=""):
    """The function var -> term on the inputs that satisfy pc, as far as the
    path condition can be expressed; the rest of it is not used."""
    hyps = []
    for c in pc:
        for a in _split_and(c):
            try:
                h = _atom(a)
            except Unsupported:
                continue
            if h is not None and h[1][0] == "rx" and h[0].eq(var):
                hyps.append(h)
    f = Function(x, var, [([], term)], list(machines)
                 + [regex(h[1][1]) for h in hyps], chars)
    for _, m, neg in hyps:
        f.fst = fst.restrict(f.fst, f.alpha, regex(m[1]), neg)
    return f


def _is_parts(t):
    return t.sort().name() == "Parts"


def sep_free(alpha):
    """Identity on plain strings (without list separators)."""
    f = fst.identity(alpha)
    f.arcs[0] = [a for a in f.arcs[0] if a[0] != fst.SEP]
    return f
