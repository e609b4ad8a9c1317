"""Exploration of all paths, built-in models, and the result record."""
import re
import time
import types

from .core import (Bool, Closure, Escaped, ExcVal, Frame, HDict, HList, HObj,
                   Int, Interp, Obj, PathEnd, Py, Ref, Restart, Str, Sym,
                   SymRaise, Tup, Union, Unsupported, conj, strof, strval, z3)

Parts = z3.DeclareSort("Parts")      # a list of strings made by splitting

#: characters for which str.isspace() is true
SPACES = "".join(chr(i) for i in range(0x3001) if chr(i).isspace())


class Explorer:
    timeout = 4000              # ms, feasibility
    prove_timeout = 3000        # ms, obligations
    cvc5_timeout = 60000        # ms, obligations z3 gives up on
    max_decisions = 400
    max_steps = 200000
    max_paths = 20000
    max_seconds = 600
    exact_rfind = False

    def __init__(self, contracts=None, loops=None, models=None):
        self.global_names = set()
        self.contracts = dict(contracts or {})
        self.loops = list(loops or [])
        self.models = dict(BASE_MODELS)
        self.models.update(models or {})
        self.check_cache = {}
        self.prove_cache = {}
        self.keep = []
        self.obligations = []
        self.solver_time = 0.0
        self.solver_calls = 0
        self.by_simplify = 0
        self.by_solver = 0
        self.dump = None
        self.todo = []
        self.used_contracts = set()
        self.inlined = set()
        self.consts = {}
        self.rewrites = {}
        self.facts = {}
        self.unsupported = []
        self.paths = 0
        self.covers = {}
        self.failed_here = False
        self.loop_writes = {}

    # ------------------------------------------------------------ running
    def run(self, entry, name=""):
        """Explore entry(I) over all decisions."""
        t0 = time.time()
        self.todo = [[]]
        while self.todo:
            d = self.todo.pop()
            I = Interp(self, d)
            try:
                entry(I)
                self.paths += 1
            except PathEnd:
                self.paths += 1
            except Restart:
                self.todo = [[]]
                continue
            except Escaped:
                self.paths += 1
            except SymRaise as e:
                self.unsupported.append("%s: uncaught %r at %s" % (
                    name, e.exc, I.where()))
            except Unsupported as e:
                self.unsupported.append("%s: %s (%s)" % (name, e, I.where()))
            except RecursionError:
                self.unsupported.append("%s: recursion" % name)
            except z3.Z3Exception as e:
                self.unsupported.append("%s: z3 %s (%s)" % (
                    name, e, I.where()))
            if len(self.unsupported) > 20:
                break
            if self.paths > self.max_paths or \
                    time.time() - t0 > self.max_seconds:
                self.unsupported.append("%s: too many paths" % name)
                break
        return self

    def cover(self, I, name):
        """Reachability: this point was reached on a feasible path."""
        if not self.covers.get(name):
            if I.check() == z3.sat:
                self.covers[name] = True

    def failed(self):
        return [o for o in self.obligations if o.status != "discharged"]

    # ------------------------------------------------------ default hooks
    def str_attr(self, I, o, name):
        if o.meta and name in o.meta:
            return o.meta[name]
        return None

    def obj_attr(self, I, o, name):
        return None

    def obj_getitem(self, I, o, k):
        raise Unsupported("opaque[...]")

    def obj_setitem(self, I, o, k, v):
        raise Unsupported("opaque[...] = ")

    def obj_len(self, I, o):
        if o.meta and "len" in o.meta:
            return o.meta["len"]
        raise Unsupported("len of opaque")

    def obj_slice(self, I, o, lo, hi):
        raise Unsupported("slice of opaque")

    def obj_list(self, I, o):
        raise Unsupported("list of opaque")

    def obj_call(self, I, o, args, kw):
        raise Unsupported("call of opaque")

    def obj_method(self, I, o, name, args, kw):
        raise Unsupported("method %s of opaque" % name)

    def global_write(self, I, o, name):
        raise Unsupported("write to concrete object")

    def concrete_index(self, I, o, k):
        return None

    def default_value(self, I, fn, n, d):
        if isinstance(d, dict) and not d:
            return I.new_dict(frozen=True)
        if isinstance(d, list) and not d:
            return I.new_list(frozen=True)
        return I.lift(d)

    def sorted_model(self, I, v, c):
        return None

    def dict_update(self, I, o, c, v):
        return False

    # --------------------------------------------------------- comprehension
    def comp_model(self, I, e, gen, it, fr):
        if isinstance(it, Ref):
            c = I.cell(it)
            if isinstance(c, HObj) and isinstance(c.model, PartsModel):
                return c.model.comp(I, it, e, gen, fr)
        if isinstance(it, Sym) and it.kind == "str" and not gen.ifs:
            return CharGen.make(I, it, e, gen, fr)
        return None

    # -------------------------------------------------------------- strings
    def rewrite(self, name, spec, rng=Str, dom=Str):
        self.rewrites[name] = spec
        return z3.Function(name, dom, rng)

    def fact(self, I, c):
        """Something that holds of every string; no condition of the path."""
        n = len(I.pc)
        I.assume(c)
        for c in I.pc[n:]:
            self.facts[c.get_id()] = c

    def table(self, I, v):
        """A constant table for str.translate: character -> text."""
        if isinstance(v, Py) and isinstance(v.v, dict):
            items = list(v.v.items())
        elif isinstance(v, Ref) and isinstance(I.cell(v), HDict):
            d = I.cell(v)
            if d.base is not None or not all(
                    isinstance(k, Py) and isinstance(x, Py)
                    for g, k, x in d.entries):
                return None
            if any(g is not None and g is not True and not (
                    z3.is_expr(g) and z3.is_true(g))
                    for g, k, x in d.entries):
                return None
            items = [(k.v, x.v) for g, k, x in d.entries]
        else:
            return None
        res = {}
        for k, x in items:
            if not isinstance(k, int) or not (
                    x is None or isinstance(x, (int, str))):
                return None
            res[chr(k)] = '' if x is None else x if isinstance(x, str) \
                else chr(x)
        return res

    def str_method(self, I, o, name, args, kw):
        t = I.term(o, "str")
        a = []
        for x in args:
            if isinstance(x, Union):
                def again(y, x=x):
                    return self.str_method(
                        I, o, name, [y if z is x else z for z in args], kw)
                return I.each(x, again)
            a.append(x)
        if name == "replace" and len(a) == 2 and all(
                isinstance(x, Py) for x in a):
            old, new = a[0].v, a[1].v
            f = self.rewrite("replace<%r,%r>" % (old, new),
                             ("re", [(re.escape(old), 0,
                                      new.replace("\\", "\\\\"))]))
            return Sym("str", f(t), str)
        if name == "translate" and len(a) == 1:
            table = self.table(I, a[0])
            if table is not None:
                f = self.rewrite("translate<%r>" % sorted(table.items()),
                                 ("charmap", lambda c: table.get(c, c)))
                return Sym("str", f(t), str)
        if name == "join":
            return self.join(I, o, a[0])
        if name == "split":
            if len(a) == 1 and isinstance(a[0], Py) and \
                    isinstance(a[0].v, str) and len(a[0].v) == 1:
                f = self.rewrite("split<%r>" % a[0].v, ("split", a[0].v),
                                 Parts)
                return PartsModel.make(I, f(t))
            if len(a) == 2 and isinstance(a[0], Py) and \
                    isinstance(a[1], Py) and a[1].v == 1 and a[0].v:
                return self.split1(I, t, a[0].v, first=True)
            if not a:
                f = z3.Function("split_ws", Str, Parts)
                return PartsModel.make(I, f(t))
        if name == "rsplit" and len(a) == 2 and isinstance(a[0], Py) and \
                isinstance(a[1], Py) and a[1].v == 1:
            return self.split1(I, t, a[0].v, first=False)
        if name == "partition" and isinstance(a[0], Py):
            parts = self.split1(I, t, a[0].v, first=True)
            items = I.seq_items(parts)
            if len(items) == 1:
                return Tup((items[0], Py(""), Py("")))
            return Tup((items[0], a[0], items[1]))
        if name in ("strip", "lower", "upper", "lstrip", "rstrip", "title",
                    "casefold", "swapcase") and not a:
            f = z3.Function(name, Str, Str)
            r = f(t)
            if "strip" in name:
                self.fact(I, z3.Length(r) <= z3.Length(t))
                blank = Explorer.str_method(self, I, o, "isspace", [], {}).t
                self.fact(I, (z3.Length(r) == 0) == z3.Or(
                    z3.Length(t) == 0, blank))
            return Sym("str", r, str)
        if name == "startswith" and len(a) == 1:
            if isinstance(a[0], Py) and isinstance(a[0].v, tuple):
                return Sym("bool", z3.Or(*[z3.PrefixOf(strval(p), t)
                                           for p in a[0].v]))
            return Sym("bool", z3.PrefixOf(I.term(a[0], "str"), t))
        if name == "endswith" and len(a) == 1:
            return Sym("bool", z3.SuffixOf(I.term(a[0], "str"), t))
        if name == "isspace" and not a:
            f = z3.Function("isspace", Str, Bool)
            b = f(t)
            # what the proofs need to know about white space
            self.fact(I, z3.Implies(b, z3.And(
                z3.Not(z3.Contains(t, strval("<"))),
                z3.Not(z3.Contains(t, strval("?"))))))
            return Sym("bool", b)
        if name == "find":
            sub = I.term(a[0], "str")
            if len(a) == 1:
                return Sym("int", z3.IndexOf(t, sub, 0))
            k = I.term(a[1], "int")
            r = I.fresh("find", Int)
            I.assume(z3.Implies(k >= 0, r == z3.IndexOf(t, sub, k)))
            I.assume(z3.Implies(z3.Not(z3.Contains(t, sub)), r == -1))
            I.assume(r >= -1)
            return Sym("int", r)
        if name == "rfind":
            sub = I.term(a[0], "str")
            f = z3.Function("rfind", Str, Str, Int)
            r = f(t, sub)
            n = z3.Length(t)
            I.assume(z3.And(r >= -1, r < n))
            if self.exact_rfind and isinstance(a[0], Py) and \
                    len(a[0].v) == 1:
                I.assume((r == -1) == z3.Not(z3.Contains(t, sub)))
                I.assume(z3.Implies(r >= 0, z3.And(
                    z3.SubString(t, r, 1) == sub, z3.Not(z3.Contains(
                        z3.SubString(t, r + 1, n), sub)))))
            return Sym("int", r)
        if name == "format":
            if isinstance(o, Py) and not kw:
                parts = []
                i = 0
                for m in re.finditer(r"\{(\d*)\}|([^{}]+)|(\{\{)|(\}\})",
                                     o.v):
                    if m.group(2) is not None:
                        parts.append(Py(m.group(2)))
                    elif m.group(3):
                        parts.append(Py("{"))
                    elif m.group(4):
                        parts.append(Py("}"))
                    else:
                        k = int(m.group(1)) if m.group(1) else i
                        i += 1
                        parts.append(I.to_str(a[k]))
                return I.concat(parts)
        if name == "translate" and isinstance(a[0], Py):
            table = a[0].v
            n = "translate<%d>" % id(table)
            self.keep.append(table)
            f = self.rewrite(n, ("charmap", lambda c: c.translate(table)))
            return Sym("str", f(t), str)
        if name == "count":
            f = z3.Function("count", Str, Str, Int)
            return Sym("int", f(t, I.term(a[0], "str")))
        raise Unsupported("str.%s" % name)

    def split1(self, I, t, sep, first):
        """s.split(sep, 1) / s.rsplit(sep, 1) by its specification."""
        if not I.branch(z3.Contains(t, strval(sep))):
            return I.new_list([Sym("str", t, str)])
        a = I.fresh("head", Str)
        b = I.fresh("tail", Str)
        I.assume(t == z3.Concat(a, strval(sep), b))
        I.assume(z3.Not(z3.Contains(a if first else b, strval(sep))))
        return I.new_list([Sym("str", a, str), Sym("str", b, str)])

    def join(self, I, sep, v):
        if isinstance(v, Ref):
            c = I.cell(v)
            if isinstance(c, HObj) and isinstance(c.model, CharGen):
                if isinstance(sep, Py) and sep.v == "":
                    return c.model.joined(I)
            if isinstance(c, HObj) and isinstance(c.model, PartsModel):
                f = z3.Function("join<%r>" % (sep.v if isinstance(sep, Py)
                                              else "?"), Parts, Str)
                return Sym("str", f(c.model.t), str)
            if isinstance(c, HList) and c.base is not None and \
                    hasattr(c.base, "join"):
                return c.base.join(I, sep, c)
        items = I.seq_items(v)
        if items is None:
            raise Unsupported("join of %r" % (v,))
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(sep)
            if isinstance(x, Union):
                x = I.each(x, lambda y: y)
            if not (isinstance(x, Py) and isinstance(x.v, str)
                    or isinstance(x, Sym) and x.kind == "str"):
                raise SymRaise(ExcVal(TypeError))
            parts.append(x)
        return I.concat(parts)

    # ---------------------------------------------------------------- regexes
    def re_method(self, I, pat, name, args, kw):
        if name == "sub":
            if isinstance(args[1], Union):
                return I.each(args[1], lambda y: self.re_method(
                    I, pat, name, [args[0], y], kw))
            t = I.term(args[1], "str")
            if isinstance(args[0], Py) and isinstance(args[0].v, str):
                f = self.rewrite(
                    "resub<%r,%r,%r>" % (pat.pattern, pat.flags, args[0].v),
                    ("re", [(pat.pattern, pat.flags & ~re.U, args[0].v)]))
                return Sym("str", f(t), str)
        if name in ("match", "search", "fullmatch"):
            return self.re_match(I, pat, name, args[0])
        raise Unsupported("regex %s" % name)

    def re_match(self, I, pat, name, s):
        """Some match or None; groups are fresh strings."""
        t = I.term(s, "str")
        f = z3.Function("re_%s<%r,%d>" % (name, pat.pattern, pat.flags),
                        Str, Bool)
        ok = f(t)
        m = I.alloc(HObj(None, {}, model=MatchModel(pat, name, t)))
        return Union([(ok, m), (z3.Not(ok), Py(None))])


class MatchModel:
    def __init__(self, pat, name, t):
        self.pat, self.name, self.t = pat, name, t

    def getattr(self, I, o, name):
        from .core import Method
        return Method(name, o)

    def group(self, I, k):
        k = self.pat.groupindex.get(k, k)
        f = z3.Function("re_%s_g%s<%r,%d>" % (self.name, k, self.pat.pattern,
                                              self.pat.flags), Str, Str)
        v = Sym("str", f(self.t), str)
        if self.optional(k):
            p = z3.Function("re_%s_has%s<%r,%d>" % (
                self.name, k, self.pat.pattern, self.pat.flags), Str, Bool)
            return Union([(p(self.t), v), (z3.Not(p(self.t)), Py(None))])
        return v

    def optional(self, k):
        """May group k take no part in a match?"""
        if k == 0:
            return False
        import re._parser as sp
        tree = sp.parse(self.pat.pattern, self.pat.flags & ~re.U)

        def find(items, opt):
            for op, av in items:
                op = str(op)
                if op == "SUBPATTERN":
                    if av[0] == k:
                        return opt
                    r = find(av[3], opt)
                elif op in ("MAX_REPEAT", "MIN_REPEAT",
                            "POSSESSIVE_REPEAT"):
                    r = find(av[2], opt or av[0] == 0)
                elif op == "BRANCH":
                    r = None
                    for alt in av[1]:
                        r = find(alt, True)
                        if r is not None:
                            break
                else:
                    r = None
                if r is not None:
                    return r
            return None
        return find(tree, False) is not False

    def call(self, I, o, name, args, kw):
        if name == "groups":
            return Tup([self.group(I, k + 1)
                        for k in range(self.pat.groups)])
        if name == "group":
            if not args:
                return self.group(I, 0)
            if len(args) == 1:
                return self.group(I, args[0].v)
            return Tup([self.group(I, a.v) for a in args])
        if name in ("start", "end"):
            f = z3.Function("re_%s_%s<%r,%d>" % (self.name, name,
                                                 self.pat.pattern,
                                                 self.pat.flags), Str, Int)
            r = f(self.t)
            I.assume(z3.And(r >= 0, r <= z3.Length(self.t)))
            return Sym("int", r)
        raise Unsupported("match.%s" % name)

    def getitem(self, I, o, k):
        return self.group(I, k.v)

    def truth(self, I, o):
        return True


class PartsModel:
    """A list of strings obtained from one string (kept as a term)."""

    def __init__(self, t):
        self.t = t

    @staticmethod
    def make(I, t):
        return I.alloc(HObj(list, {}, model=PartsModel(t)))

    def getattr(self, I, o, name):
        return None

    def length(self, I, o):
        f = z3.Function("nparts", Parts, Int)
        return Sym("int", f(self.t))

    def truth(self, I, o):
        return self.length(I, o).t > 0

    def getitem(self, I, o, k):
        if isinstance(k, Py) and k.v == -1:
            f = z3.Function("lastpart", Parts, Str)
            return Sym("str", f(self.t), str)
        f = z3.Function("part", Parts, Int, Str)
        return Sym("str", f(self.t, I.term(k, "int")), str)

    def unpack(self, I, o, n):
        if not I.branch(self.length(I, o).t == n):
            raise SymRaise(ExcVal(ValueError))
        return [self.getitem(I, o, Py(k)) for k in range(n)]

    def comp(self, I, o, e, gen, fr):
        if gen.ifs:
            # filter
            raise Unsupported("filtering comprehension over parts")
        x = I.fresh("part", Str)
        sub = Frame(fr.fn, dict(fr.env), fr.glob, fr.parent)
        sub.masklen = len(I.mask)
        sub.dead = []
        sub.line = e.lineno
        I.assign(gen.target, Sym("str", x, str), sub)
        v = I.ev(e.elt, sub)
        if not (isinstance(v, Sym) and v.kind == "str"):
            raise Unsupported("comprehension over parts")
        if v.t.eq(x):
            return PartsModel.make(I, self.t)
        f = I.x.rewrite("map<%s>" % z3.substitute(
            v.t, (x, z3.Const("p", Str))), ("map", x, v.t), Parts, Parts)
        return PartsModel.make(I, f(self.t))

    def getslice(self, I, o, lo, hi):
        if isinstance(lo, Py) and lo.v in (None, 0) and isinstance(
                hi, Py) and hi.v == -1:
            f = I.x.rewrite("droplast", ("droplast",), Parts, Parts)
            return PartsModel.make(I, f(self.t))
        if isinstance(lo, Py) and lo.v in (None, 0) and isinstance(
                hi, Py) and hi.v is None:
            return PartsModel.make(I, self.t)
        raise Unsupported("slice of parts")

    def delitem(self, I, o, k):
        if isinstance(k, Py) and k.v == -1:
            f = I.x.rewrite("droplast", ("droplast",), Parts, Parts)
            self.t = f(self.t)
            return
        raise Unsupported("del part")

    def call(self, I, o, name, args, kw):
        if name == "pop" and (not args or (isinstance(args[0], Py)
                                           and args[0].v == -1)):
            v = self.getitem(I, o, Py(-1))
            self.delitem(I, o, Py(-1))
            return v
        raise Unsupported("parts.%s" % name)

    def to_list(self, I, o):
        return PartsModel.make(I, self.t)


class CharGen:
    """(f(c) for c in s)"""

    def __init__(self, t, fn, key):
        self.t, self.fn, self.key = t, fn, key

    @staticmethod
    def make(I, it, e, gen, fr):
        import ast as _ast

        def fn(ch):
            sub = Frame(fr.fn, dict(fr.env), fr.glob, fr.parent)
            sub.masklen = len(I.mask)
            sub.dead = []
            sub.line = e.lineno
            I.assign(gen.target, Py(ch), sub)
            v = I.ev(e.elt, sub)
            if not isinstance(v, Py):
                raise Unsupported("character generator")
            return v.v
        key = "chargen<%s>" % _ast.dump(e)
        return I.alloc(HObj(None, {}, model=CharGen(it.t, fn, key)))

    def getattr(self, I, o, name):
        return None

    def joined(self, I):
        f = I.x.rewrite(self.key, ("charmap", self.fn))
        return Sym("str", f(self.t), str)


# ------------------------------------------------------------- library models
def _m_html_escape(I, args, kw):
    import html
    from .core import function_node
    fn = html.escape
    return I.call_node(function_node(fn), fn, args, kw, fn.__globals__)


def _m_re(name):
    def m(I, args, kw):
        pat, flags = args[0], 0
        if not isinstance(pat, Py):
            raise Unsupported("regex pattern")
        n = {"sub": 3}.get(name, 2)
        if len(args) > n:
            flags = args[n].v
        if "flags" in kw:
            flags = kw["flags"].v
        p = re.compile(pat.v, flags) if isinstance(pat.v, str) else pat.v
        return I.x.re_method(I, p, name, args[1:n], {})
    return m


def _m_exc_info(I, args, kw):
    for fr in reversed(I.frames):
        h = getattr(fr, "handling", None)
        if h is not None:
            return Tup((I.fobj("exctype"), h, I.fobj("tb")))
    return Tup((Py(None), Py(None), Py(None)))


import html  # noqa: E402
import sys   # noqa: E402

BASE_MODELS = {
    html.escape: _m_html_escape,
    re.match: _m_re("match"),
    re.search: _m_re("search"),
    re.fullmatch: _m_re("fullmatch"),
    re.sub: _m_re("sub"),
    sys.exc_info: _m_exc_info,
}
