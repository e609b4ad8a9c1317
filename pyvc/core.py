"""Symbolic evaluator for the Python subset used by the code under contract.

The text that is evaluated is the source of the functions as imported from
/repo, parsed anew on every run.  A function is evaluated for all inputs: each
symbolic branch is explored in both directions (fork mode, paths are replayed
from their decision prefix), or both branches are executed under guards and
their effects merged (guarded mode, used where the number of paths would
explode).  Calls go to a contract if one is registered, otherwise the callee is
evaluated in place.  Loops over symbolic data need a loop contract.
"""
import ast
import builtins
import inspect
import re as _re
import subprocess
import sys
import time
import types

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402

from .fst import Unsupported  # noqa: E402

Obj = z3.DeclareSort("Obj")
Str = z3.StringSort()
Int = z3.IntSort()
Bool = z3.BoolSort()


class PathEnd(Exception):
    """This path needs no further exploration."""


class Restart(Exception):
    """A loop write-set grew; start the exploration again."""


class SymReturn(Exception):
    def __init__(self, value):
        self.value = value


class SymBreak(Exception):
    pass


class SymContinue(Exception):
    pass


class SymRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Escaped(Exception):
    """Guarded mode: no live path is left in the current region."""


# -------------------------------------------------------------------- values
class Value:
    __slots__ = ()


class Py(Value):
    """A concrete Python object."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Py(%r)" % (self.v,) if not callable(self.v) else \
            "Py<%s>" % getattr(self.v, "__name__", self.v)


class Sym(Value):
    """A symbolic value; cls is its Python type where that matters."""
    __slots__ = ("kind", "t", "cls", "meta")

    def __init__(self, kind, t, cls=None, meta=None):
        self.kind, self.t, self.cls, self.meta = kind, t, cls, meta

    def __repr__(self):
        return "Sym(%s)" % self.t


class Tup(Value):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Ref(Value):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return "Ref(%s)" % self.addr

    def __eq__(self, other):
        return isinstance(other, Ref) and other.addr == self.addr

    def __hash__(self):
        return hash(self.addr)


class Union(Value):
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = list(alts)

    def __repr__(self):
        return "Union%r" % (self.alts,)


class Bound(Value):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return "Bound(%s,%r)" % (getattr(self.fn, "__name__", self.fn),
                                 self.self)


class Method(Value):
    """Method of a built-in kind of value (list, str, dict, model object)."""
    __slots__ = ("name", "self")

    def __init__(self, name, self_):
        self.name, self.self = name, self_

    def __repr__(self):
        return "Method(%s,%r)" % (self.name, self.self)


class Closure(Value):
    __slots__ = ("node", "env", "glob", "defaults")

    def __init__(self, node, env, glob, defaults=()):
        self.node, self.env, self.glob = node, env, glob
        self.defaults = defaults


class ExcVal(Value):
    """An exception object.  cls None: of unknown class."""
    __slots__ = ("cls", "args", "t", "fields")

    def __init__(self, cls, args=(), t=None):
        self.cls, self.args, self.t = cls, args, t
        self.fields = {}

    def __repr__(self):
        return "Exc(%s)" % (self.cls.__name__ if self.cls else "?")


class SymSeq:
    """Symbolic finite sequence: length term and element function."""

    def __init__(self, name, length, at):
        self.name, self.length, self.at = name, length, at


# ----------------------------------------------------------------- heap cells
class HObj:
    kind = "obj"

    def __init__(self, cls, fields=None, frozen=False, model=None):
        self.cls, self.fields = cls, fields or {}
        self.frozen, self.model = frozen, model


class HList:
    kind = "list"

    def __init__(self, items=(), base=None, frozen=False, cls=list):
        self.items = [(None, x) for x in items]
        self.base, self.frozen, self.cls = base, frozen, cls


class HDict:
    kind = "dict"

    def __init__(self, entries=(), base=None, frozen=False):
        # entries: list of [guard, key value, value]
        self.entries = [list(e) for e in entries]
        self.base, self.frozen = base, frozen


# ---------------------------------------------------------------- source text
_sources = {}


def _module_defs(filename):
    d = _sources.get(filename)
    if d is None:
        with open(filename) as f:
            tree = ast.parse(f.read(), filename)
        d = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if getattr(node, "decorator_list", None):
                    line = node.decorator_list[0].lineno
                d.setdefault((line, getattr(node, "name", "<lambda>")), node)
        _sources[filename] = d
    return d


def function_node(fn):
    code = fn.__code__
    defs = _module_defs(code.co_filename)
    node = defs.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return node


#: what the names of the modules under verification begin with
SUBJECT = ("zope.tal",)


def subject_code(fn):
    """Is this a function of the code under verification?"""
    return isinstance(fn, types.FunctionType) and \
        (fn.__module__ or "").startswith(SUBJECT)


def is_true(x):
    return z3.is_true(x)


def conj(*xs):
    out = []
    for x in xs:
        if x is None or z3.is_true(x):
            continue
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


class Frame:
    def __init__(self, fn, env, glob, parent=None):
        self.fn, self.env, self.glob, self.parent = fn, env, glob, parent
        self.mask = None
        self.returns = []
        self.dead = []          # guarded mode: states that have returned
        self.loops = []         # ... that left an iteration of these loops


class Obligation:
    __slots__ = ("name", "status", "time", "where", "model", "path",
                 "backend")

    def __init__(self, name, status, t, where, model=None, path=None,
                 backend="z3"):
        self.backend = backend
        self.name, self.status, self.time = name, status, t
        self.where, self.model, self.path = where, model, path


class Interp:
    """One symbolic execution.  Explorer runs many of these."""

    def __init__(self, explorer, decisions):
        self.x = explorer
        self.decisions = decisions
        self.dpos = 0
        self.pc = []
        self.mask = []              # guarded mode: list of guards
        self.simt = False
        self.heap = {}
        self.next_addr = 1
        self.counter = {}
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", explorer.timeout)
        self.contracts = explorer.contracts
        self.loops = explorer.loops
        self.frames = []
        self.escapes = []           # guarded mode: (guard, exception)
        self.escape_pcs = []        # path condition (length) at each
        self.loop_stack = []
        self.steps = 0
        self.depth = 0
        self.watch = None
        self.notes = {}

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return z3.Const("%s!%d" % (name, n), sort)

    def fint(self, name):
        return Sym("int", self.fresh(name, Int))

    def fbool(self, name):
        return Sym("bool", self.fresh(name, Bool))

    def fstr(self, name, cls=str):
        return Sym("str", self.fresh(name, Str), cls)

    def fobj(self, name, meta=None):
        return Sym("obj", self.fresh(name, Obj), None, meta)

    def alloc(self, cell):
        a = self.next_addr
        self.next_addr += 1
        cell.born = list(self.mask)
        self.heap[a] = cell
        return Ref(a)

    def cell(self, ref):
        return self.heap[ref.addr]

    def new_list(self, items=(), **k):
        return self.alloc(HList(items, **k))

    def new_dict(self, entries=(), **k):
        return self.alloc(HDict(entries, **k))

    def new_obj(self, cls, fields=None, **k):
        return self.alloc(HObj(cls, fields, **k))

    # ------------------------------------------------------- path condition
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd("infeasible")
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if self.mask:
            c = z3.Implies(conj(*self.mask), c)
        self.pc.append(c)
        self.solver.add(c)
        if z3.is_false(c):
            raise PathEnd("infeasible")

    def check(self, *cs):
        """sat / unsat / unknown of pc and mask and cs."""
        cs = [c for c in cs if not z3.is_true(c)]
        for c in cs:
            if z3.is_false(c):
                return z3.unsat
        key = (tuple(c.get_id() for c in self.pc),
               tuple(c.get_id() for c in self.mask),
               tuple(c.get_id() for c in cs))
        r = self.x.check_cache.get(key)
        if r is None:
            t = time.time()
            self.solver.push()
            for c in self.mask:
                self.solver.add(c)
            for c in cs:
                self.solver.add(c)
            r = self.solver.check()
            self.solver.pop()
            self.x.solver_time += time.time() - t
            self.x.solver_calls += 1
            self.x.check_cache[key] = r
            # keep terms alive so that ids stay unique
            self.x.keep.append((list(self.pc), list(self.mask), cs))
        return r

    def feasible(self, c):
        if c is None or z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(c) != z3.unsat

    def implied(self, c):
        if c is None or z3.is_true(c):
            return True
        return self.check(z3.Not(c)) == z3.unsat

    def decide(self, n, what=""):
        """Choose one of n alternatives; the explorer tries them all."""
        if n == 1:
            return 0
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.x.todo.append(self.decisions + [k])
            self.decisions = self.decisions + [0]
        self.dpos += 1
        if self.dpos > self.x.max_decisions:
            raise Unsupported("too many decisions on one path")
        return d

    def branch(self, c):
        """Fork on a boolean term (fork mode)."""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        t = self.check(c) != z3.unsat
        f = self.check(z3.Not(c)) != z3.unsat
        if t and not f:
            return True
        if f and not t:
            return False
        if not t and not f:
            raise PathEnd("infeasible") if not self.simt else Escaped()
        if self.simt:
            raise Unsupported("fork needed in guarded region")
        if self.decide(2) == 0:
            self.assume(c)
            return True
        self.assume(z3.Not(c))
        return False

    def prove(self, name, formula, where=""):
        """Record an obligation: pc and mask imply formula."""
        if isinstance(formula, bool):
            formula = z3.BoolVal(formula)
        t = time.time()
        key = (name, tuple(c.get_id() for c in self.pc),
               tuple(c.get_id() for c in self.mask), formula.get_id())
        st = self.x.prove_cache.get(key)
        model = None
        backend = "z3"
        if st is None:
            f = z3.simplify(formula)
            if z3.is_true(f):
                st = "discharged"
                self.x.by_simplify += 1
            else:
                s = self.solver
                s.push()
                s.set("timeout", self.x.prove_timeout)
                for c in self.mask:
                    s.add(c)
                s.add(z3.Not(f))
                if self.x.dump is not None:
                    self.x.dump.append((name, s.to_smt2()))
                r = s.check()
                self.x.solver_calls += 1
                self.x.by_solver += 1
                if r == z3.unsat:
                    st = "discharged"
                elif r == z3.sat:
                    st = "refuted"
                    model = str(s.model())[:2000]
                else:
                    st = self.second_opinion(s)
                    if st == "discharged":
                        backend = "cvc5"
                s.pop()
                s.set("timeout", self.x.timeout)
            self.x.prove_cache[key] = st
            self.x.keep.append((list(self.pc), list(self.mask), formula))
            dt = time.time() - t
            self.x.solver_time += dt
            self.x.obligations.append(
                Obligation(name, st, dt, where or self.where(), model,
                           list(self.decisions[:self.dpos]), backend))
        if st != "discharged":
            self.x.failed_here = True
        return st == "discharged"

    def second_opinion(self, s):
        """z3 gave up: ask cvc5.  Only unsat is used."""
        try:
            p = subprocess.run(
                ["cvc5", "--strings-exp", "--tlimit=%d" % self.x.cvc5_timeout,
                 "-"], input="(set-logic ALL)\n" + s.to_smt2(), text=True,
                capture_output=True, timeout=self.x.cvc5_timeout / 1000 + 5)
        except (OSError, subprocess.SubprocessError):
            return "unknown"
        if p.stdout.strip() == "unsat":
            return "discharged"
        return "unknown"

    def where(self):
        for f in reversed(self.frames):
            if f.fn is not None:
                return "%s:%s" % (f.fn, getattr(f, "line", "?"))
        return ""

    # --------------------------------------------------------- value helpers
    def lift(self, v):
        if isinstance(v, Value):
            return v
        return Py(v)

    def concrete(self, v):
        """Python object for a fully concrete value, else raise KeyError."""
        if isinstance(v, Py):
            return v.v
        if isinstance(v, Tup):
            return tuple(self.concrete(i) for i in v.items)
        raise KeyError("not concrete")

    def is_concrete(self, v):
        try:
            self.concrete(v)
            return True
        except KeyError:
            return False

    def ite(self, c, a, b):
        """Value that is a if c else b."""
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return a
        if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind \
                and a.cls == b.cls and a.t.eq(b.t):
            return a
        if isinstance(a, Py) and isinstance(b, Py):
            try:
                if type(a.v) is type(b.v) and (a.v is b.v or a.v == b.v):
                    return a
            except Exception:
                pass
        if isinstance(a, Tup) and isinstance(b, Tup) \
                and len(a.items) == len(b.items):
            return Tup([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        ka, kb = self._prim(a), self._prim(b)
        if ka and kb and ka == kb and ka[0] in ("int", "bool", "str") \
                and not (isinstance(a, Py) and isinstance(b, Py)
                         and ka[0] == "str"):
            return Sym(ka[0], z3.If(c, self.term(a, ka[0]),
                                    self.term(b, kb[0])), ka[1])
        alts = []
        for g, x in self.alts(a):
            alts.append((conj(c, g), x))
        for g, x in self.alts(b):
            alts.append((conj(z3.Not(c), g), x))
        return self.union(alts)

    def alts(self, v):
        if isinstance(v, Union):
            return v.alts
        return [(None, v)]

    def union(self, alts):
        """Union with equal alternatives merged."""
        out = []
        for g, v in alts:
            g = z3.simplify(conj(g))
            if z3.is_false(g):
                continue
            if isinstance(v, Union):
                for g2, v2 in v.alts:
                    self._add_alt(out, z3.simplify(conj(g, g2)), v2)
            else:
                self._add_alt(out, g, v)
        if not out:
            raise Escaped()
        if len(out) == 1:
            return out[0][1]
        return Union(out)

    def _add_alt(self, out, g, v):
        if z3.is_false(g):
            return
        for i, (g1, v1) in enumerate(out):
            if self.same(v, v1):
                out[i] = (z3.simplify(z3.Or(g1, g)), v1)
                return
        out.append((g, v))

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Ref):
            return a == b
        if isinstance(a, Py):
            if a.v is b.v:
                return True
            return (type(a.v) is type(b.v)
                    and isinstance(a.v, (int, str, tuple, type(None), bool))
                    and a.v == b.v)
        if isinstance(a, Sym):
            return a.kind == b.kind and a.cls == b.cls and a.t.eq(b.t)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(
                self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (Bound, Method)):
            n = "fn" if isinstance(a, Bound) else "name"
            return getattr(a, n) == getattr(b, n) and self.same(a.self, b.self)
        return False

    def _prim(self, v):
        """(kind, class) for values with a direct term."""
        if isinstance(v, Sym):
            return (v.kind, v.cls)
        if isinstance(v, Py):
            if isinstance(v.v, bool):
                return ("bool", None)
            if isinstance(v.v, int):
                return ("int", None)
            if type(v.v) is str:
                return ("str", str)
        return None

    def term(self, v, kind):
        if isinstance(v, Sym):
            if v.kind == kind:
                return v.t
            if kind == "int" and v.kind == "bool":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if kind == "bool":
                return self.truth_term(v)
        if isinstance(v, Py):
            if kind == "int" and isinstance(v.v, int):
                return z3.IntVal(int(v.v))
            if kind == "bool" and isinstance(v.v, (bool, int)):
                return z3.BoolVal(bool(v.v))
            if kind == "str" and isinstance(v.v, str):
                return strval(v.v)
        if isinstance(v, Union) and self.simt:
            alts = [(g, x) for g, x in v.alts if self.feasible(conj(g))]
            t = self.term(alts[-1][1], kind)
            for g, x in reversed(alts[:-1]):
                t = z3.If(conj(g), self.term(x, kind), t)
            return t
        raise Unsupported("no %s term for %s" % (kind, str(v)[:200]))

    def each(self, v, fn):
        """Apply fn to the alternatives of v."""
        if not isinstance(v, Union):
            return fn(v)
        alts = [(g, a) for g, a in v.alts if self.feasible(conj(g))]
        if not alts:
            raise PathEnd("infeasible") if not self.simt else Escaped()
        if len(alts) == 1:
            return fn(alts[0][1])
        if self.simt:
            res = []
            for g, a in alts:
                r = self.guarded(conj(g), lambda: fn(a))
                if r is not None:
                    res.append((conj(g), r[0]))
            if not res:
                raise Escaped()
            return self.union(res)
        i = self.decide(len(alts))
        self.assume(conj(alts[i][0]))
        return fn(alts[i][1])

    def guarded(self, g, fn):
        """Guarded mode: run fn under guard g.  Returns (result,) or None if
        every path under g left by an exception, return, break..."""
        if not self.feasible(g):
            return None
        self.mask.append(g)
        n = len(self.mask)
        try:
            return (fn(),)
        except SymRaise as e:
            self.escape(e.exc)
            return None
        except SymReturn as e:
            fr = self.frames[-1]
            fr.returns.append((conj(*self.mask[fr.masklen:]), e.value))
            fr.dead.append(conj(*self.mask[fr.masklen:]))
            return None
        except (SymBreak, SymContinue) as e:
            self.leave_iteration(e)
            return None
        except Escaped:
            return None
        finally:
            del self.mask[n - 1:]

    def leave_iteration(self, e):
        """The states at hand go on after the loop or with its next round."""
        fr = self.frames[-1]
        if not fr.loops:
            raise Unsupported("leaving an iteration")
        broke, skipped = fr.loops[-1]
        (broke if isinstance(e, SymBreak) else skipped).append(
            conj(*self.mask[fr.masklen:]))

    def iteration(self, fr, fn):
        """Guarded mode: run one round of the innermost loop."""
        broke, skipped = fr.loops[-1]
        n = len(self.mask)
        try:
            fn()
        except (SymBreak, SymContinue) as e:
            self.leave_iteration(e)
        except SymReturn as e:
            c = conj(*self.mask[fr.masklen:])
            fr.returns.append((c, e.value))
            fr.dead.append(c)
        except SymRaise as e:
            self.escape(e.exc)
        except Escaped:
            pass
        finally:
            del self.mask[n:]
            del skipped[:]

    def one_round(self, s, fr, g, item):
        """The body of a loop for one item that is there under g."""
        fr.loops.append(([], []))
        try:
            self.iteration(fr, lambda: self.guarded(g, lambda: (
                self.assign(s.target, item, fr),
                self.exec_block(s.body, fr))))
        finally:
            broke = fr.loops.pop()[0]
        if broke:
            raise Unsupported("break in a loop under contract")
        self._merge_dead()

    def escape(self, exc):
        """The states at hand leave by an exception."""
        self.escapes.append((conj(*self.mask), exc))
        self.escape_pcs.append(len(self.pc))
        self._kill(z3.BoolVal(False))

    def _kill(self, c):
        """These paths are finished: assume c from here on."""
        m = conj(*self.mask)
        c = z3.simplify(z3.Implies(m, c))
        self.pc.append(c)
        self.solver.add(c)

    # ------------------------------------------------------------ truth
    def truth_term(self, v):
        """Boolean term (or Python bool) for the truth value of v."""
        if isinstance(v, Py):
            if isinstance(v.v, (types.FunctionType, type)):
                return True
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, Sym):
            if v.kind == "bool":
                return v.t
            if v.kind == "int":
                return v.t != 0
            if v.kind == "str":
                return v.t != strval("")
            if v.kind == "obj":
                f = z3.Function("truth", Obj, Bool)
                if v.meta and "truth" in v.meta:
                    return v.meta["truth"]
                return f(v.t)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList):
                if any(g is None for g, _ in c.items):
                    return True
                parts = [g for g, _ in c.items]
                if c.base is not None:
                    parts.append(c.base.length > 0)
                return z3.Or(*parts) if parts else False
            if isinstance(c, HDict):
                if c.base is not None:
                    return c.base.truth(self, c)
                if any(e[0] is None for e in c.entries):
                    return True
                parts = [e[0] for e in c.entries]
                return z3.Or(*parts) if parts else False
            if isinstance(c, HObj):
                if c.model is not None and hasattr(c.model, "truth"):
                    return c.model.truth(self, v)
                return True
        if isinstance(v, (Bound, Method, Closure, ExcVal)):
            return True
        if isinstance(v, Union):
            ts = []
            for g, a in v.alts:
                t = self.truth_term(a)
                if isinstance(t, bool):
                    t = z3.BoolVal(t)
                ts.append(conj(g, t))
            return z3.simplify(z3.Or(*ts))
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        return t

    # ------------------------------------------------------------ execution
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > self.x.max_steps:
            raise Unsupported("too many steps")
        fr.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store(fr, a.asname, Py(m))
            else:
                self.store(fr, a.name.split(".")[0],
                           Py(sys.modules[a.name.split(".")[0]]))

    def s_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ""
        if s.level:
            pkg = fr.glob.get("__package__") or \
                fr.glob["__name__"].rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        mod = importlib.import_module(name)
        for a in s.names:
            if hasattr(mod, a.name):
                v = getattr(mod, a.name)
            else:
                v = importlib.import_module(name + "." + a.name)
            self.store(fr, a.asname or a.name, Py(v))

    def s_Global(self, s, fr):
        # what is stored there is not looked at by the contracts
        if not set(s.names) <= self.x.global_names:
            raise Unsupported("global")

    def s_FunctionDef(self, s, fr):
        self.store(fr, s.name, self.closure(s, fr))

    def closure(self, node, fr):
        if node.args.kw_defaults and any(node.args.kw_defaults):
            raise Unsupported("keyword-only defaults of a nested function")
        return Closure(node, fr.env, fr.glob,
                       [self.ev(d, fr) for d in node.args.defaults])

    def store(self, fr, name, v):
        self.note_write(("var", id(fr), name))
        if self.simt and len(self.mask) > fr.masklen and name in fr.env:
            v = self.ite(conj(*self.mask[fr.masklen:]), v, fr.env[name])
        fr.env[name] = v

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t),
                          fr)
            val = self.ev(s.value, fr)
            v = self.augop(s.op, cur, val)
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            val = self.ev(s.value, fr)
            v = self.augop(s.op, cur, val)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k)
            val = self.ev(s.value, fr)
            v = self.augop(s.op, cur, val)
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, val):
        if isinstance(op, ast.Add):
            def f(a):
                if isinstance(a, Ref) and isinstance(self.cell(a), HList):
                    self.list_method(a, "extend", [val], {})
                    return a
                return self.binop(op, a, val)
            return self.each(cur, f)
        return self.binop(op, cur, val)

    def assign_star(self, elts, i, v, fr):
        c = self.cell(v) if isinstance(v, Ref) else None
        if isinstance(v, Tup):
            vals = list(v.items)
        elif isinstance(c, HList) and c.base is None and not any(
                g is not None for g, _ in c.items):
            vals = [x for _, x in c.items]
        else:
            raise Unsupported("starred assignment")
        more = len(vals) - len(elts) + 1
        if more < 0:
            raise SymRaise(ExcVal(ValueError, ()))
        for e, x in zip(elts[:i], vals):
            self.assign(e, x, fr)
        self.assign(elts[i].value, self.new_list(vals[i:i + more]), fr)
        for e, x in zip(elts[i + 1:], vals[i + more:]):
            self.assign(e, x, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            if isinstance(t.slice, ast.Slice):
                raise Unsupported("slice assignment")
            self.setitem(o, self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                return self.assign_star(t.elts, star[0], v, fr)
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, Union):
            # componentwise when all alternatives have n components
            rows = []
            for g, a in v.alts:
                if self.feasible(conj(g)):
                    rows.append((g, self.unpack(a, n)))
            if len(rows) == 1:
                return rows[0][1]
            if not self.simt:
                i = self.decide(len(rows))
                self.assume(conj(rows[i][0]))
                return rows[i][1]
            return [self.union([(g, r[k]) for g, r in rows])
                    for k in range(n)]
        items = self.seq_items(v)
        if items is None:
            c = isinstance(v, Ref) and self.cell(v)
            if c and isinstance(c, HObj) and hasattr(c.model, "unpack"):
                return c.model.unpack(self, v, n)
            if isinstance(v, Sym) and v.meta and "unpack" in v.meta:
                return v.meta["unpack"](self, n)
            if c and isinstance(c, HList) and c.base is not None and not \
                    c.items:
                if not self.branch(c.base.length == n):
                    self.do_raise(ExcVal(ValueError))
                return [c.base.at(z3.IntVal(k)) for k in range(n)]
            raise Unsupported("unpack %r" % (v,))
        if len(items) != n:
            self.do_raise(ExcVal(ValueError))
        return items

    def seq_items(self, v):
        """Items of a sequence with concrete structure, else None."""
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, Py):
            if isinstance(v.v, (tuple, list)):
                return [self.lift(x) for x in v.v]
            if isinstance(v.v, (frozenset, set)):
                return [self.lift(x) for x in sorted(v.v, key=repr)]
            if isinstance(v.v, dict):
                return [self.lift(x) for x in v.v]
            if isinstance(v.v, (str, range)):
                return [self.lift(x) for x in v.v]
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList) and c.base is None \
                    and all(g is None for g, _ in c.items):
                return [x for _, x in c.items]
        return None

    def s_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else Py(None)
        raise SymReturn(v)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.note_write(("var", id(fr), t.id))
                if not self.mask:
                    fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                if isinstance(t.slice, ast.Slice):
                    self.del_slice(o, t.slice, fr)
                else:
                    self.delitem(o, self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, "handling", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise SymRaise(cur)
        v = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(v, Union) and self.simt:
            for g, a in v.alts:
                self.guarded(conj(g), lambda: self.raise_value(a))
            raise Escaped()
        if isinstance(v, Union):
            v = self.each(v, lambda a: a)
        self.raise_value(v)

    def raise_value(self, v):
        if isinstance(v, Py) and isinstance(v.v, type):
            v = ExcVal(v.v)
        if isinstance(v, Py) and isinstance(v.v, BaseException):
            v = ExcVal(type(v.v))
        if not isinstance(v, ExcVal):
            raise Unsupported("raise %r" % (v,))
        raise SymRaise(v)

    def do_raise(self, exc):
        raise SymRaise(exc)

    def s_Assert(self, s, fr):
        v = self.ev(s.test, fr)
        t = self.truth(v)
        if isinstance(t, bool):
            if not t:
                raise SymRaise(ExcVal(AssertionError))
            return
        if self.simt:
            self.if_guarded(z3.Not(t), lambda: self.do_raise(
                ExcVal(AssertionError)))
            return
        if not self.branch(t):
            raise SymRaise(ExcVal(AssertionError))

    def if_guarded(self, c, fn):
        self.guarded(c, fn)
        self._merge_dead()

    def _merge_dead(self):
        self._live()
        if self.check() == z3.unsat:
            raise Escaped()

    def _live(self):
        """Leave out the states that are no longer here."""
        fr = self.frames[-1]
        gone = list(fr.dead)
        for broke, skipped in fr.loops:
            gone += broke + skipped
        for d in gone:
            nd = z3.simplify(z3.Not(d))
            if not any(nd.eq(m) for m in self.mask[fr.masklen:]):
                self.mask.append(nd)

    def s_If(self, s, fr):
        v = self.ev(s.test, fr)
        t = self.truth(v)
        if not isinstance(t, bool):
            t = z3.simplify(t)
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if isinstance(t, bool):
            self.exec_block(s.body if t else s.orelse, fr)
            return
        if not self.simt:
            if self.branch(t):
                self.exec_block(s.body, fr)
            else:
                self.exec_block(s.orelse, fr)
            return
        if self.implied(t):
            self.exec_block(s.body, fr)
            return
        if self.implied(z3.Not(t)):
            self.exec_block(s.orelse, fr)
            return
        self.guarded(t, lambda: self.exec_block(s.body, fr))
        if s.orelse:
            self.guarded(z3.Not(t), lambda: self.exec_block(s.orelse, fr))
        self._merge_dead()

    def s_Try(self, s, fr):
        if self.simt:
            return self._try_simt(s, fr)
        try:
            try:
                self.exec_block(s.body, fr)
            except SymRaise as e:
                for h in s.handlers:
                    if self.exc_matches(e.exc, h, fr):
                        if h.name:
                            self.store(fr, h.name, e.exc)
                        old = getattr(fr, "handling", None)
                        fr.handling = e.exc
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            fr.handling = old
                            if h.name:
                                fr.env.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, fr)
        except (SymRaise, SymReturn, SymBreak, SymContinue):
            self.exec_block(s.finalbody, fr)
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def _try_simt(self, s, fr):
        n = len(self.escapes), len(fr.returns)
        left = [list(map(len, b)) for b in fr.loops]
        try:
            self.exec_block(s.body, fr)
        except (SymRaise, SymReturn, SymBreak, SymContinue, Escaped):
            raise Unsupported("leaving a try in guarded mode")
        if len(self.escapes) != n[0]:
            raise Unsupported("try with raising paths in guarded mode")
        self.exec_block(s.orelse, fr)
        if s.finalbody and ((len(self.escapes), len(fr.returns)) != n or
                            left != [list(map(len, b)) for b in fr.loops]):
            raise Unsupported("leaving a try in guarded mode")
        self.exec_block(s.finalbody, fr)

    def exc_matches(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, fr)
        classes = []
        for x in (t.items if isinstance(t, Tup) else [t]):
            if isinstance(x, Py) and isinstance(x.v, tuple):
                classes += list(x.v)
            elif isinstance(x, Py) and isinstance(x.v, type):
                classes.append(x.v)
            else:
                classes.append(x)
        if BaseException in classes:
            return True
        if exc.cls is not None and all(isinstance(c, type) for c in classes):
            return any(issubclass(exc.cls, c) for c in classes)
        # unknown class: both are possible
        f = z3.Function("isexc_%s" % "_".join(
            getattr(c, "__name__", "x") for c in classes), Obj, Bool)
        if exc.t is None:
            exc.t = self.fresh("exc", Obj)
        return self.branch(f(exc.t))

    def s_With(self, s, fr):
        raise Unsupported("with")

    def s_Break(self, s, fr):
        raise SymBreak()

    def s_Continue(self, s, fr):
        raise SymContinue()

    # ---------------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        if isinstance(it, Union):
            it = self.each(it, lambda a: a) if not self.simt else it
        self.for_loop(s, fr, it)

    def for_loop(self, s, fr, it):
        spec = self.find_loop(s, fr, it)
        if spec is not None:
            spec.run_for(self, s, fr, it)
            return
        if isinstance(it, Union):
            def f(a):
                self.for_loop(s, fr, a)
                return Py(None)
            self.each(it, f)
            return
        items = self.iter_items(it)
        if items is None:
            raise Unsupported("loop over %r without contract in %s:%d" % (
                it, fr.fn, s.lineno))
        if self.simt:
            return self.for_guarded(s, fr, items)
        for g, x in items:
            if g is None or self.branch(g):
                self.assign(s.target, x, fr)
                try:
                    self.exec_block(s.body, fr)
                except SymContinue:
                    pass
                except SymBreak:
                    return
        self.exec_block(s.orelse, fr)

    def for_guarded(self, s, fr, items):
        n = len(self.mask)
        fr.loops.append(([], []))
        try:
            for g, x in items:
                self._live()
                if self.check() == z3.unsat:
                    break

                def body():
                    self.assign(s.target, x, fr)
                    self.exec_block(s.body, fr)
                self.iteration(fr, body if g is None else
                               lambda: self.guarded(g, body))
                del self.mask[n:]
        finally:
            del self.mask[n:]
            broke = fr.loops.pop()[0]
        self.after_loop(s, fr, broke)

    def after_loop(self, s, fr, broke):
        if s.orelse:
            self.guarded(conj(*[z3.Not(b) for b in broke]), lambda: (
                self._live(), self.exec_block(s.orelse, fr)))
        self._merge_dead()

    def iter_items(self, it):
        """List of (guard, value) or None."""
        if isinstance(it, Ref):
            c = self.cell(it)
            if isinstance(c, HList) and c.base is None:
                return list(c.items)
            if isinstance(c, HDict) and c.base is None:
                return [(e[0], e[1]) for e in c.entries]
            return None
        items = self.seq_items(it)
        if items is not None:
            return [(None, x) for x in items]
        return None

    def s_While(self, s, fr):
        spec = self.find_loop(s, fr, None)
        if spec is not None:
            spec.run_while(self, s, fr)
            return
        if self.simt:
            return self.while_guarded(s, fr)
        n = 0
        while True:
            t = self.truth(self.ev(s.test, fr))
            if isinstance(t, bool):
                if not t:
                    break
            else:
                # without a contract only loops decided by the path condition
                t = z3.simplify(t)
                a, b = self.feasible(t), self.feasible(z3.Not(t))
                if a and b:
                    raise Unsupported("while loop without contract in %s:%d"
                                      % (fr.fn, s.lineno))
                if not a:
                    break
            n += 1
            if n > 200:
                raise Unsupported("while loop does not terminate")
            try:
                self.exec_block(s.body, fr)
            except SymBreak:
                return
            except SymContinue:
                continue
        self.exec_block(s.orelse, fr)

    def while_guarded(self, s, fr):
        n = len(self.mask)
        fr.loops.append(([], []))
        rounds = 0
        try:
            while True:
                self._live()
                if self.check() == z3.unsat:
                    break
                t = self.truth(self.ev(s.test, fr))
                if not isinstance(t, bool):
                    if self.implied(t):
                        t = True
                    elif self.implied(z3.Not(t)):
                        t = False
                    else:
                        raise Unsupported("while loop without contract in "
                                          "%s:%d" % (fr.fn, s.lineno))
                if not t:
                    break
                rounds += 1
                if rounds > 200:
                    raise Unsupported("while loop does not terminate")
                self.iteration(fr, lambda: self.exec_block(s.body, fr))
                del self.mask[n:]
        finally:
            del self.mask[n:]
            broke = fr.loops.pop()[0]
        self.after_loop(s, fr, broke)

    def find_loop(self, s, fr, it):
        for pred, spec in self.loops:
            if pred(self, s, fr, it):
                return spec
        return None

    def note_write(self, loc):
        if self.watch is not None:
            self.watch(loc)

    # ----------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return Py(e.value)

    def e_Name(self, e, fr):
        env = fr.env
        if e.id in env:
            return env[e.id]
        p = fr.parent
        while p is not None:
            if e.id in p:
                return p[e.id]
            p = p.get("__parent__")
        if e.id in fr.glob:
            return self.lift(fr.glob[e.id])
        if hasattr(builtins, e.id):
            return Py(getattr(builtins, e.id))
        raise SymRaise(ExcVal(NameError))

    def e_Tuple(self, e, fr):
        return Tup(self.ev_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.ev_list(e.elts, fr))

    def e_Set(self, e, fr):
        vals = self.ev_list(e.elts, fr)
        return Py(frozenset(self.concrete(v) for v in vals))

    def ev_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                items = self.seq_items(v)
                if items is None:
                    raise Unsupported("starred")
                out += items
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        if None in e.keys:
            raise Unsupported("dict unpack")
        entries = [[None, self.ev(k, fr), self.ev(v, fr)]
                   for k, v in zip(e.keys, e.values)]
        if all(isinstance(k, Py) for _, k, _ in entries):
            return self.new_dict([[None, Py(k), v] for k, v in {
                k.v: v for _, k, v in entries}.items()])
        r = self.new_dict()
        mask, self.mask = self.mask, []
        try:
            for _, k, v in entries:
                self.dict_set(r, self.cell(r), k, v)
        finally:
            self.mask = mask
        return r

    def e_Lambda(self, e, fr):
        return self.closure(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(Py(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.conversion == ord("r"):
                    x = self.repr_(x)
                elif v.conversion not in (-1, ord("s")):
                    raise Unsupported("conversion")
                if v.format_spec is not None:
                    x = self.opaque_str("format", [x])
                parts.append(self.to_str(x))
        return self.concat(parts)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store(fr, e.target.id, v)
        return v

    def e_IfExp(self, e, fr):
        t = self.truth(self.ev(e.test, fr))
        if not isinstance(t, bool):
            t = z3.simplify(t)
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse, fr)
        if not self.simt:
            return self.ev(e.body if self.branch(t) else e.orelse, fr)
        res = []
        r = self.guarded(t, lambda: self.ev(e.body, fr))
        if r:
            res.append((t, r[0]))
        r = self.guarded(z3.Not(t), lambda: self.ev(e.orelse, fr))
        if r:
            res.append((z3.Not(t), r[0]))
        if not res:
            raise Escaped()
        if len(res) == 2:
            return self.ite(t, res[0][1], res[1][1])
        return res[0][1]

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], fr)
        for nxt in e.values[1:]:
            t = self.truth(v)
            if not isinstance(t, bool):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
            if isinstance(t, bool):
                if t != isand:
                    return v
                v = self.ev(nxt, fr)
                continue
            if not self.simt:
                if self._pure_bool(nxt, fr) and isinstance(v, Sym) \
                        and v.kind == "bool":
                    w = self.ev(nxt, fr)
                    tw = self.truth(w)
                    if isinstance(w, Sym) and w.kind == "bool":
                        v = Sym("bool", z3.And(t, tw) if isand
                                else z3.Or(t, tw))
                        continue
                    if isinstance(w, Py) and isinstance(w.v, bool):
                        v = Sym("bool", (conj(t, z3.BoolVal(w.v))) if isand
                                else z3.Or(t, z3.BoolVal(w.v)))
                        continue
                    # fall through: decide on t now, keep w
                    if self.branch(t) == isand:
                        v = w
                        continue
                    return self._pick(v, not isand)
                if self.branch(t) != isand:
                    return self._pick(v, not isand)
                v = self.ev(nxt, fr)
                continue
            cond = t if isand else z3.Not(t)
            r = self.guarded(cond, lambda: self.ev(nxt, fr))
            if r is None:
                self._merge_dead()
                continue
            v = self.ite(cond, r[0], self._falsy(v, isand, t))
        return v

    def _pick(self, v, truth):
        """v narrowed after deciding its truth value."""
        if isinstance(v, Union):
            return self.each(v, lambda a: a)
        return v

    def _falsy(self, v, isand, t):
        if isinstance(v, Union):
            alts = []
            for g, a in v.alts:
                tt = self.truth_term(a)
                if isinstance(tt, bool):
                    if tt == isand:
                        continue
                alts.append((g, a))
            if alts:
                return self.union(alts)
        return v

    def _pure_bool(self, e, fr):
        """Cheap syntactic check: evaluating e cannot have effects or fail."""
        if isinstance(e, (ast.Name, ast.Constant)):
            return True
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name) and e.value.id == "self"
        if isinstance(e, ast.Compare):
            return self._pure_bool(e.left, fr) and all(
                self._pure_bool(c, fr) for c in e.comparators) and all(
                isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot))
                for o in e.ops)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self._pure_bool(e.operand, fr)
        return False

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            if isinstance(t, bool):
                return Py(not t)
            return Sym("bool", z3.simplify(z3.Not(t)))
        if isinstance(e.op, ast.USub):
            if isinstance(v, Py):
                return Py(-v.v)
            return Sym("int", -self.term(v, "int"))
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op, a, b)

    def joined(self, ca, base):
        """The symbolic sequence of a list followed by another one."""
        own = [x for _, x in ca.items]
        n = z3.IntVal(0) if ca.base is None else ca.base.length
        m = z3.simplify(n + len(own))

        def at(i):
            if ca.base is not None and self.branch(i < n):
                return ca.base.at(i)
            if own and self.branch(i < m):
                return self.index_sym(own, Sym("int", z3.simplify(i - n)))
            return base.at(z3.simplify(i - m))
        r = SymSeq("joined", z3.simplify(m + base.length), at)
        r.parts = (ca.base, own, base)
        return r

    def binop(self, op, a, b):
        if isinstance(a, Union):
            return self.each(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Union) and not (isinstance(op, ast.Mod)):
            return self.each(b, lambda x: self.binop(op, a, x))
        if self.is_concrete(a) and self.is_concrete(b):
            x, y = self.concrete(a), self.concrete(b)
            try:
                return self.lift(_PYOPS[type(op)](x, y))
            except KeyError:
                raise Unsupported("operator")
            except Exception as e:
                raise SymRaise(ExcVal(type(e)))
        if isinstance(op, ast.Add):
            if isinstance(a, Tup) or isinstance(b, Tup):
                x, y = self.seq_items(a), self.seq_items(b)
                if x is not None and y is not None:
                    return Tup(x + y)
                xs, ys = self.tuple_view(a), self.tuple_view(b)
                if xs is not None and ys is not None:
                    return self.alloc(HObj(tuple, {}, True,
                                           TupleCat([xs, ys])))
                raise Unsupported("tuple concatenation")
            if isinstance(a, Ref) and isinstance(self.cell(a), HList) and \
                    isinstance(b, Ref) and isinstance(self.cell(b), HList):
                ca, cb = self.cell(a), self.cell(b)
                if cb.base is not None:
                    if any(g is not None for g, _ in ca.items):
                        raise Unsupported("list concatenation")
                    return self.alloc(HList(
                        base=self.joined(ca, cb.base),
                        items=list(cb.items)))
                r = HList(base=ca.base)
                r.items = list(ca.items) + list(cb.items)
                return self.alloc(r)
            ka, kb = self._prim(a), self._prim(b)
            if ka and kb:
                if ka[0] == kb[0] == "str":
                    return self.concat([a, b])
                if ka[0] in ("int", "bool") and kb[0] in ("int", "bool"):
                    return Sym("int", self.term(a, "int")
                               + self.term(b, "int"))
                if "obj" not in (ka[0], kb[0]):
                    raise SymRaise(ExcVal(TypeError))
            ta, tb = self.type_of(a), self.type_of(b)
            if bytes in (ta, tb) and None not in (ta, tb):
                if ta is not tb:
                    raise SymRaise(ExcVal(TypeError))
                return Sym("obj", self.fresh("bytes", Obj), bytes,
                           {"notnone": True})
        if isinstance(op, ast.Mod):
            if isinstance(a, Py) and isinstance(a.v, str):
                return self.percent(a.v, b)
            if self._prim(a) and self._prim(a)[0] == "str":
                return self.opaque_str("fmt", [a])
        ka, kb = self._prim(a), self._prim(b)
        if ka and kb and ka[0] in ("int", "bool") and kb[0] in ("int",
                                                                "bool"):
            x, y = self.term(a, "int"), self.term(b, "int")
            if isinstance(op, ast.Sub):
                return Sym("int", x - y)
            if isinstance(op, ast.Mult):
                return Sym("int", x * y)
            if isinstance(op, ast.FloorDiv):
                if isinstance(b, Py) and b.v > 0:
                    return Sym("int", x / y)
            if isinstance(op, ast.Div):
                if isinstance(b, Py) and b.v > 0:
                    return Sym("real", z3.ToReal(x) / z3.ToReal(y))
            if isinstance(op, ast.Mod):
                if isinstance(b, Py) and b.v > 0:
                    return Sym("int", x % y)
        if isinstance(op, ast.Mult):
            for s, n in ((a, b), (b, a)):
                ks, kn = self._prim(s), self._prim(n)
                if ks and ks[0] == "str" and kn and kn[0] in ("int", "bool"):
                    return self.str_repeat(s, n)
        raise Unsupported("operator %s on %r, %r" % (type(op).__name__, a, b))

    def str_repeat(self, s, n):
        f = z3.Function("repeat", Str, Int, Str)
        t = f(self.term(s, "str"), self.term(n, "int"))
        if isinstance(s, Py) and s.v == " ":
            # a run of blanks
            self.assume(z3.InRe(t, z3.Star(z3.Re(" "))))
            self.assume(z3.Implies(self.term(n, "int") >= 0,
                                   z3.Length(t) == self.term(n, "int")))
        return Sym("str", t, str)

    def percent(self, fmt, b):
        args = list(b.items) if isinstance(b, Tup) else [b]
        parts = []
        i = 0
        for m in _re.finditer(r"%(.)|([^%]+)", fmt, _re.S):
            if m.group(2):
                parts.append(Py(m.group(2)))
                continue
            c = m.group(1)
            if c == "%":
                parts.append(Py("%"))
                continue
            if i >= len(args):
                raise SymRaise(ExcVal(TypeError))
            a = args[i]
            i += 1
            if c == "s":
                parts.append(self.to_str(a))
            elif c == "r":
                parts.append(self.repr_(a))
            elif c == "d":
                parts.append(self.opaque_str("dec", [a]))
            else:
                raise Unsupported("format %%%s" % c)
        return self.concat(parts)

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Union):
                if self.simt:
                    # keep it simple: term with ite over string alternatives
                    t = None
                    for g, a in reversed(p.alts):
                        ta = self.term(a, "str")
                        t = ta if t is None else z3.If(conj(g), ta, t)
                    p = Sym("str", t, str)
                else:
                    p = self.each(p, lambda a: a)
            if isinstance(p, Py):
                if not isinstance(p.v, str):
                    raise SymRaise(ExcVal(TypeError))
                if p.v == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p.v
                else:
                    out.append(p.v)
            elif isinstance(p, Sym) and p.kind == "str":
                out.append(p.t)
            else:
                raise SymRaise(ExcVal(TypeError))
        if not out:
            return Py("")
        if len(out) == 1:
            return Py(out[0]) if isinstance(out[0], str) \
                else Sym("str", out[0], str)
        ts = []
        for t in out:
            t = strval(t) if isinstance(t, str) else t
            if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
                ts.extend(t.children())
            else:
                ts.append(t)
        # join neighbouring constants
        flat = []
        for t in ts:
            if flat and z3.is_string_value(t) and z3.is_string_value(flat[-1]):
                flat[-1] = strval(strof(flat[-1]) + strof(t))
            else:
                flat.append(t)
        if len(flat) == 1:
            return Sym("str", flat[0], str)
        return Sym("str", z3.Concat(*flat), str)

    def to_str(self, v):
        """str(v)"""
        if isinstance(v, Union):
            return self.each(v, self.to_str)
        if isinstance(v, Py):
            return Py(str(v.v))
        if isinstance(v, Sym):
            if v.kind == "str":
                return Sym("str", v.t, str)
            return self.opaque_str("str", [v])
        return self.opaque_str("str", [v])

    def repr_(self, v):
        if self.is_concrete(v):
            return Py(repr(self.concrete(v)))
        return self.opaque_str("repr", [v])

    def opaque_str(self, name, args):
        ts = []
        for a in args:
            if isinstance(a, Sym):
                ts.append(a.t)
            elif isinstance(a, Py) and isinstance(a.v, (bool, int, str)):
                ts.append(self.term(a, "bool" if isinstance(a.v, bool)
                                    else "int" if isinstance(a.v, int)
                                    else "str"))
            else:
                return self.fstr(name)
        f = z3.Function(name + "_of_" + "_".join(t.sort().name()
                                                 for t in ts),
                        *([t.sort() for t in ts] + [Str]))
        return Sym("str", f(*ts), str)

    # ---------------------------------------------------------- comparisons
    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            if res is not None and not self._pure_bool(c, fr):
                # evaluated only if what stands before it holds
                t = self.truth(res)
                if isinstance(t, bool) and not t:
                    return res
                if not isinstance(t, bool) and (
                        self.simt and not self.implied(t) or
                        not self.simt and not self.branch(t)):
                    if self.simt:
                        raise Unsupported("chained comparison")
                    return res
            right = self.ev(c, fr)
            v = self.compare(op, left, right)
            res = v if res is None else self._and(res, v)
            left = right
        return res

    def _and(self, a, b):
        ta, tb = self.truth(a), self.truth(b)
        if isinstance(ta, bool):
            return b if ta else a
        if isinstance(tb, bool):
            return a if tb else b
        return Sym("bool", z3.And(ta, tb))

    def _not(self, v):
        t = self.truth(v)
        return Py(not t) if isinstance(t, bool) else Sym("bool", z3.Not(t))

    def compare(self, op, a, b):
        if isinstance(op, ast.NotEq):
            return self._not(self.equal(a, b))
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            return self._not(self.identical(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self._not(self.contains(b, a))
        if isinstance(a, Union):
            return self.each(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Union):
            return self.each(b, lambda x: self.compare(op, a, x))
        if self.is_concrete(a) and self.is_concrete(b):
            try:
                return Py(_PYCMP[type(op)](self.concrete(a),
                                           self.concrete(b)))
            except TypeError:
                raise SymRaise(ExcVal(TypeError))
        x, y = self._num(a), self._num(b)
        if x is not None and y is not None:
            return Sym("bool", _PYCMP[type(op)](x, y))
        raise Unsupported("comparison %r %r" % (a, b))

    def _num(self, v):
        if isinstance(v, Sym) and v.kind == "real":
            return v.t
        k = self._prim(v)
        if k and k[0] in ("int", "bool"):
            return self.term(v, "int")
        return None

    def eq_term(self, a, b):
        """Python bool or z3 bool for a == b."""
        if isinstance(a, Union):
            return self._union_rel(a, lambda x: self.eq_term(x, b))
        if isinstance(b, Union):
            return self._union_rel(b, lambda x: self.eq_term(a, x))
        if self.is_concrete(a) and self.is_concrete(b):
            return bool(self.concrete(a) == self.concrete(b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                if a == b:
                    return True
                ca, cb = self.cell(a), self.cell(b)
                for x, y, c in ((a, b, ca), (b, a, cb)):
                    if isinstance(c, HObj) and hasattr(c.model, "equals"):
                        return c.model.equals(self, x, y)
                if isinstance(ca, HObj) and isinstance(cb, HObj):
                    return False
                for c in (ca, cb):
                    if isinstance(c, HObj) and c.model is not None and \
                            c.cls in (list, dict, tuple):
                        raise Unsupported("equality of collections")
                if type(ca) is not type(cb):
                    return False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and (
                        isinstance(y, Py) and not isinstance(
                            y.v, (list, tuple, dict))
                        or isinstance(y, Sym) and y.kind in (
                            "str", "int", "bool")):
                    return False
            la, lb = self.seq_items(a), self.seq_items(b)
            if la is not None and lb is not None and type(a) is type(b):
                if len(la) != len(lb):
                    return False
                return self._all([self.eq_term(x, y)
                                  for x, y in zip(la, lb)])
            raise Unsupported("equality of %r and %r" % (a, b))
        ta, tb = self.as_tuple(a), self.as_tuple(b)
        if ta is not None and tb is not None:
            if len(ta) != len(tb):
                return False
            return self._all([self.eq_term(x, y) for x, y in zip(ta, tb)])
        if ta is not None or tb is not None:
            o = b if ta is not None else a
            if isinstance(o, Sym) and o.kind == "obj":
                if o.meta and "unpack" in o.meta:
                    n = len(ta if ta is not None else tb)
                    its = o.meta["unpack"](self, n)
                    return self._all([self.eq_term(x, y) for x, y in zip(
                        ta if ta is not None else tb, its)])
                raise Unsupported("tuple against opaque")
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Py) and x.meta and \
                    "differs" in x.meta and y.v in x.meta["differs"]:
                return False
        ka, kb = self._prim(a), self._prim(b)
        if ka and kb:
            if ka[0] == kb[0]:
                return self.term(a, ka[0]) == self.term(b, kb[0])
            if {ka[0], kb[0]} <= {"int", "bool"}:
                return self.term(a, "int") == self.term(b, "int")
            if "obj" in (ka[0], kb[0]):
                k = ka if ka[0] == "obj" else kb
                if k[1] is not None and not issubclass(k[1], (str, int)):
                    return False
                raise Unsupported("opaque equality")
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Py):
                if x.kind == "obj":
                    if x.meta and y.v is None and "notnone" in x.meta:
                        return False
                    return x.t == self.const_obj(y.v)
                return False        # different types
        if isinstance(a, (Bound, Method)) and isinstance(b, (Bound, Method)):
            return self.same(a, b)
        raise Unsupported("equality of %r and %r" % (a, b))

    def const_obj(self, v):
        """Obj constant standing for a concrete Python object."""
        key = repr(v) if isinstance(v, (str, int, bool, type(None), tuple)) \
            else "%s@%d" % (type(v).__name__, id(v))
        c = self.x.consts.get(key)
        if c is None:
            c = z3.Const("const<%s>" % key, Obj)
            self.x.consts[key] = c
        return c

    def as_tuple(self, v):
        if isinstance(v, Tup):
            return v.items
        if isinstance(v, Py) and isinstance(v.v, tuple):
            return [self.lift(x) for x in v.v]
        return None

    def _all(self, ts):
        out = []
        for t in ts:
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                out.append(t)
        if not out:
            return True
        return conj(*out)

    def _union_rel(self, u, fn):
        ts = []
        for g, a in u.alts:
            if not self.feasible(conj(g)):
                continue
            t = fn(a)
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            ts.append(conj(g, t))
        t = z3.simplify(z3.Or(*ts)) if ts else z3.BoolVal(False)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return t

    def wrap_bool(self, t):
        return Py(t) if isinstance(t, bool) else Sym("bool", t)

    def equal(self, a, b):
        return self.wrap_bool(self.eq_term(a, b))

    def is_term(self, a, b):
        if isinstance(a, Union):
            return self._union_rel(a, lambda x: self.is_term(x, b))
        if isinstance(b, Union):
            return self._union_rel(b, lambda x: self.is_term(a, x))
        if isinstance(a, Py) and isinstance(b, Py):
            return a.v is b.v
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Py) and isinstance(y, Sym):
                if y.kind == "obj":
                    if x.v is None and y.meta and "notnone" in y.meta:
                        return False
                    return y.t == self.const_obj(x.v)
                if y.kind == "bool" and isinstance(x.v, bool):
                    return y.t == z3.BoolVal(x.v)
                return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.kind == b.kind:
                return a.t == b.t
            return False
        if type(a) is not type(b):
            return False
        return self.same(a, b)

    def identical(self, a, b):
        return self.wrap_bool(self.is_term(a, b))

    def contains(self, cont, x):
        if isinstance(cont, Union):
            return self.each(cont, lambda c: self.contains(c, x))
        if isinstance(cont, Py) and isinstance(cont.v, str) or (
                isinstance(cont, Sym) and cont.kind == "str"):
            if isinstance(x, Union):
                return self.each(x, lambda y: self.contains(cont, y))
            if self.is_concrete(cont) and self.is_concrete(x):
                return Py(x.v in cont.v)
            return Sym("bool", z3.Contains(self.term(cont, "str"),
                                           self.term(x, "str")))
        if isinstance(cont, Ref):
            c = self.cell(cont)
            if isinstance(c, HDict):
                return self.wrap_bool(self.dict_has(cont, c, x))
            if isinstance(c, HList):
                ts = []
                if c.base is not None:
                    if hasattr(c.base, "contains"):
                        ts.append(c.base.contains(self, x))
                    else:
                        k = self.fresh("k", Int)
                        el = c.base.at(k)
                        t = self.eq_term(el, x)
                        if isinstance(t, bool):
                            t = z3.BoolVal(t)
                        ts.append(z3.Exists([k], z3.And(
                            k >= 0, k < c.base.length, t)))
                for g, y in c.items:
                    t = self.eq_term(y, x)
                    if isinstance(t, bool):
                        t = z3.BoolVal(t)
                    ts.append(conj(g, t))
                if not ts:
                    return Py(False)
                return self.wrap_simpl(z3.Or(*ts))
            if c.model is not None and hasattr(c.model, "contains"):
                return c.model.contains(self, cont, x)
        items = self.seq_items(cont)
        if items is not None:
            if self.is_concrete(x) and self.is_concrete(cont):
                return Py(self.concrete(x) in self.concrete(cont))
            ts = []
            for i in items:
                t = self.eq_term(i, x)
                if isinstance(t, bool):
                    if t:
                        return Py(True)
                    continue
                ts.append(t)
            if not ts:
                return Py(False)
            return self.wrap_simpl(z3.Or(*ts))
        raise Unsupported("in %r" % (cont,))

    def wrap_simpl(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return Py(True)
        if z3.is_false(t):
            return Py(False)
        return Sym("bool", t)

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Union):
            return self.each(o, lambda a: self.getattr(a, name))
        if isinstance(o, Py):
            v = o.v
            if isinstance(v, (types.ModuleType, type)):
                try:
                    return self.lift(getattr(v, name))
                except AttributeError:
                    raise SymRaise(ExcVal(AttributeError))
            if isinstance(v, str) or isinstance(v, (dict, list, tuple,
                                                    frozenset)) \
                    or isinstance(v, _re.Pattern):
                if not hasattr(v, name):
                    raise SymRaise(ExcVal(AttributeError))
                if not callable(getattr(v, name)):
                    return self.lift(getattr(v, name))
                return Method(name, o)
            if v is None:
                raise SymRaise(ExcVal(AttributeError))
            try:
                return self.lift(getattr(v, name))
            except AttributeError:
                raise SymRaise(ExcVal(AttributeError))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, HObj):
                if name in c.fields:
                    return c.fields[name]
                if c.model is not None:
                    r = c.model.getattr(self, o, name)
                    if r is not None:
                        return r
                if name == "__class__":
                    return Py(c.cls)
                if c.cls is not None:
                    return self.class_attr(o, c.cls, name)
                raise SymRaise(ExcVal(AttributeError))
            if name == "__class__":
                return Py(c.cls if isinstance(c, HList) else dict)
            if isinstance(c, HList) and c.cls is not list:
                try:
                    return self.class_attr(o, c.cls, name)
                except SymRaise:
                    pass
            return Method(name, o)
        if isinstance(o, Tup):
            if name == "__class__":
                return Py(tuple)
            return Method(name, o)
        if isinstance(o, Sym):
            if name == "__class__" and self.type_of(o) is not None:
                return Py(self.type_of(o))
            if o.meta and ("attr_" + name) in o.meta:
                r = o.meta["attr_" + name]
                return r(self) if callable(r) else r
            if o.kind == "str":
                if o.cls is not None and o.cls is not str:
                    r = self.x.str_attr(self, o, name)
                    if r is not None:
                        return r
                if hasattr(str, name):
                    return Method(name, o)
                raise SymRaise(ExcVal(AttributeError))
            if o.kind == "obj":
                r = self.x.obj_attr(self, o, name)
                if r is not None:
                    return r
                return Method(name, o)
            raise SymRaise(ExcVal(AttributeError))
        if isinstance(o, ExcVal):
            if name in o.fields:
                return o.fields[name]
            return self.exc_attr(o, name)
        if isinstance(o, Closure):
            raise Unsupported("attribute of closure")
        if isinstance(o, (Bound, Method)):
            if name == "__func__" and isinstance(o, Bound):
                return Py(o.fn)
        raise Unsupported("attribute %s of %r" % (name, o))

    def exc_attr(self, o, name):
        if name == "args":
            return Tup(o.args) if o.cls else self.fobj("excargs")
        if name in ("with_traceback",):
            return Method(name, o)
        if name == "__class__" and o.cls:
            return Py(o.cls)
        return self.fobj("exc_" + name)

    def class_attr(self, o, cls, name):
        try:
            raw = inspect.getattr_static(cls, name)
        except AttributeError:
            raise SymRaise(ExcVal(AttributeError))
        if isinstance(raw, types.FunctionType):
            return Bound(raw, o)
        if isinstance(raw, property):
            return self.call_function(raw.fget, [o], {})
        if isinstance(raw, staticmethod):
            return Py(raw.__func__)
        if isinstance(raw, classmethod):
            return Bound(raw.__func__, Py(cls))
        if isinstance(raw, (types.MethodDescriptorType,
                            types.WrapperDescriptorType)):
            return Method(name, o)
        if type(raw).__name__ == "member_descriptor":
            raise SymRaise(ExcVal(AttributeError))
        return self.lift(raw)

    def setattr(self, o, name, v):
        if isinstance(o, Union):
            def f(a):
                self.setattr(a, name, v)
                return Py(None)
            self.each(o, f)
            return
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.frozen:
                self.frozen_write(o, "attribute %s" % name)
                return
            if isinstance(c, HObj):
                if c.model is not None and hasattr(c.model, "setattr"):
                    if c.model.setattr(self, o, name, v):
                        return
                raw = None
                if c.cls is not None:
                    try:
                        raw = inspect.getattr_static(c.cls, name)
                    except AttributeError:
                        raw = None
                if isinstance(raw, property):
                    self.call_function(raw.fset, [o, v], {})
                    return
                self.note_write(("field", o.addr, name))
                if self.simt and self.mask:
                    if name in c.fields:
                        v = self.ite(conj(*self.mask), v, c.fields[name])
                    elif c.cls is not None and name in dir(c.cls):
                        v = self.ite(conj(*self.mask), v,
                                     self.getattr(o, name))
                    elif not self.always(c):
                        raise Unsupported("attribute %s first assigned on "
                                          "some paths" % name)
                c.fields[name] = v
                return
            if isinstance(c, HList) and c.cls is not list:
                raw = inspect.getattr_static(c.cls, name)
                if isinstance(raw, property):
                    self.call_function(raw.fset, [o, v], {})
                    return
        if isinstance(o, ExcVal):
            if self.mask:
                raise Unsupported("attribute of an exception under a guard")
            o.fields[name] = v
            return
        if isinstance(o, Py):
            self.x.global_write(self, o, name)
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    def always(self, c):
        """Whether c was made by no other states than those at hand."""
        self.solver.push()
        for m in c.born:
            self.solver.add(m)
        self.solver.add(z3.Not(conj(*self.mask)))
        r = self.solver.check()
        self.solver.pop()
        return r == z3.unsat

    def frozen_write(self, o, what):
        self.prove("unchanged input: no write to %s" % what,
                   z3.BoolVal(False))
        raise PathEnd("write to frozen")

    # ------------------------------------------------------------- subscripts
    def ev_index(self, e, fr):
        return self.ev(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            return self.getslice(o, e.slice, fr)
        return self.getitem(o, self.ev_index(e.slice, fr))

    def getitem(self, o, k):
        if isinstance(o, Union):
            return self.each(o, lambda a: self.getitem(a, k))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, HDict):
                return self.dict_get(o, c, k, None)
            if isinstance(c, HList):
                return self.list_get(o, c, k)
            if c.model is not None and hasattr(c.model, "getitem"):
                return c.model.getitem(self, o, k)
            raise Unsupported("subscript of object")
        if isinstance(k, Union):
            return self.each(k, lambda a: self.getitem(o, a))
        if isinstance(o, Tup):
            if isinstance(k, Py):
                try:
                    return o.items[k.v]
                except IndexError:
                    raise SymRaise(ExcVal(IndexError))
            return self.index_sym(list(o.items), k)
        if isinstance(o, Py):
            if isinstance(k, Py) or self.is_concrete(k):
                try:
                    return self.lift(o.v[self.concrete(k)])
                except Exception as e:
                    raise SymRaise(ExcVal(type(e)))
            r = self.x.concrete_index(self, o, k)
            if r is not None:
                return r
            if isinstance(o.v, dict):
                alts = []
                none = []
                for key, val in o.v.items():
                    t = self.eq_term(self.lift(key), k)
                    if isinstance(t, bool):
                        if t:
                            return self.lift(val)
                        continue
                    alts.append((t, self.lift(val)))
                    none.append(z3.Not(t))
                miss = conj(*none)
                if self.simt:
                    self.if_guarded(miss, lambda: self.do_raise(
                        ExcVal(KeyError)))
                elif self.branch(miss):
                    raise SymRaise(ExcVal(KeyError))
                return self.union(alts)
            items = self.seq_items(o)
            if items is not None:
                return self.index_sym(items, k)
        if isinstance(o, Sym):
            if o.kind == "obj":
                return self.x.obj_getitem(self, o, k)
            if o.kind == "str":
                i = self.term(k, "int")
                n = z3.Length(o.t)
                i2 = z3.If(i < 0, n + i, i)
                if not self.branch(z3.And(i2 >= 0, i2 < n)):
                    raise SymRaise(ExcVal(IndexError))
                return Sym("str", z3.SubString(o.t, i2, 1), str)
        raise Unsupported("subscript %r[%r]" % (o, k))

    def index_sym(self, items, k):
        i = self.term(k, "int")
        n = len(items)
        if not self.branch(z3.And(i < n, i >= -n)):
            raise SymRaise(ExcVal(IndexError))
        alts = []
        for j, x in enumerate(items):
            alts.append((z3.Or(i == j, i == j - n), x))
        return self.union(alts)

    def list_get(self, o, c, k):
        if all(g is None for g, _ in c.items):
            n = len(c.items)
            if isinstance(k, Py) and isinstance(k.v, int):
                if c.base is None:
                    try:
                        return c.items[k.v][1]
                    except IndexError:
                        raise SymRaise(ExcVal(IndexError))
                if k.v < 0 and -k.v <= n:
                    return c.items[k.v][1]
            i = self.term(k, "int")
            if c.base is None:
                return self.index_sym([x for _, x in c.items], k)
            L = c.base.length
            total = L + n
            if not self.branch(z3.And(i < total, i >= -total)):
                raise SymRaise(ExcVal(IndexError))
            i2 = z3.simplify(z3.If(i < 0, total + i, i))
            if n == 0 or self.branch(i2 < L):
                return c.base.at(z3.simplify(i2))
            alts = []
            for j, (_, x) in enumerate(c.items):
                alts.append((i2 == L + j, x))
            return self.union(alts)
        # guarded items: only the last element
        if isinstance(k, Py) and k.v == -1:
            return self.list_last(o, c, pop=False)
        if isinstance(k, Py) and k.v == 0 and c.base is None:
            return self._first(c, 0)
        raise Unsupported("index into guarded list")

    def _first(self, c, idx):
        alts = []
        rest = []
        for g, v in c.items:
            g = conj(g)
            cond = conj(*(rest + [g]))
            if self.feasible(cond):
                alts.append((cond, v))
            if self.implied(z3.Or(z3.Not(conj(*rest)), g)):
                break
            rest.append(z3.Not(g))
        else:
            if rest:
                self.if_guarded(conj(*rest),
                                lambda: self.do_raise(ExcVal(IndexError)))
        return self.union(alts)

    def list_last(self, o, c, pop):
        """Last element of a guarded list, for all paths under the mask."""
        alts = []
        extra = []
        i = len(c.items) - 1
        todo = []
        while True:
            if i < 0:
                if c.base is None:
                    if self.feasible(conj(*extra)):
                        self.if_guarded(conj(*extra),
                                        lambda: self.do_raise(
                                            ExcVal(IndexError)))
                    break
                if not self.feasible(conj(*extra)):
                    break
                raise Unsupported("element of symbolic base list")
            g, v = c.items[i]
            cond = conj(*(extra + [conj(g)]))
            if self.feasible(cond):
                alts.append((cond, v))
                todo.append((i, cond))
                if not self.feasible(conj(*(extra + [z3.Not(conj(g))]))):
                    break
                extra = extra + [z3.Not(conj(g))]
            i -= 1
        if not alts:
            raise SymRaise(ExcVal(IndexError)) if not self.simt else Escaped()
        if pop:
            m = conj(*self.mask)
            for i, cond in todo:
                g, v = c.items[i]
                gone = z3.And(m, cond)
                ng = z3.simplify(z3.And(conj(g), z3.Not(gone)))
                c.items[i] = (ng, v)
            c.items = [(g, v) for g, v in c.items
                       if g is None or not z3.is_false(g)]
        return self.union(alts)

    def setitem(self, o, k, v):
        if isinstance(o, Union):
            def f(a):
                self.setitem(a, k, v)
                return Py(None)
            self.each(o, f)
            return
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.frozen:
                self.frozen_write(o, "item")
                return
            if isinstance(c, HDict):
                self.dict_set(o, c, k, v)
                return
            if isinstance(c, HList):
                self.note_write(("list", o.addr))
                if isinstance(k, Py) and all(g is None for g, _ in c.items):
                    n = len(c.items)
                    if c.base is None and -n <= k.v < n:
                        old = c.items[k.v][1]
                        if self.mask:
                            v = self.ite(conj(*self.mask), v, old)
                        c.items[k.v] = (None, v)
                        return
                    if c.base is not None and k.v < 0 and -k.v <= n:
                        if self.mask:
                            v = self.ite(conj(*self.mask), v,
                                         c.items[k.v][1])
                        c.items[k.v] = (None, v)
                        return
                    if c.base is None:
                        raise SymRaise(ExcVal(IndexError))
                if isinstance(k, Py) and k.v == -1:
                    return self.set_last(o, c, v)
                if hasattr(c.base, "setitem"):
                    c.base.setitem(self, o, c, k, v)
                    return
                if isinstance(c.base, SymSeq) and not c.items and not \
                        self.mask and isinstance(k, Sym) and self.implied(
                            z3.And(k.t >= 0, k.t == c.base.length - 1)):
                    c.base = SymSeq(c.base.name, k.t, c.base.at)
                    c.items = [(None, v)]
                    return
                raise Unsupported("list item assignment")
            if c.model is not None and hasattr(c.model, "setitem"):
                c.model.setitem(self, o, k, v)
                return
        if isinstance(o, Sym) and o.kind == "obj":
            return self.x.obj_setitem(self, o, k, v)
        raise Unsupported("item assignment on %r" % (o,))

    def set_last(self, o, c, v):
        extra = []
        i = len(c.items) - 1
        m = conj(*self.mask)
        while i >= 0:
            g, old = c.items[i]
            cond = conj(*(extra + [conj(g)]))
            if self.feasible(cond):
                c.items[i] = (g, self.ite(z3.And(m, cond), v, old))
                if not self.feasible(conj(*(extra + [z3.Not(conj(g))]))):
                    return
                extra = extra + [z3.Not(conj(g))]
            i -= 1
        if self.feasible(conj(*extra)):
            raise Unsupported("assignment to element of symbolic base")

    def delitem(self, o, k):
        if isinstance(o, Union):
            def f(a):
                self.delitem(a, k)
                return Py(None)
            self.each(o, f)
            return
        if isinstance(o, Ref):
            c = self.cell(o)
            if c.frozen:
                self.frozen_write(o, "deletion")
                return
            if isinstance(c, HDict):
                self.dict_get(o, c, k, None)      # may raise KeyError
                self.dict_del(o, c, k)
                return
            if isinstance(c, HList) and isinstance(k, Py) and k.v == -1:
                self.list_method(o, "pop", [], {})
                return
            if isinstance(c, HObj) and hasattr(c.model, "delitem"):
                c.model.delitem(self, o, k)
                return
        raise Unsupported("del item")

    def getslice(self, o, sl, fr):
        lo = self.ev(sl.lower, fr) if sl.lower is not None else Py(None)
        hi = self.ev(sl.upper, fr) if sl.upper is not None else Py(None)
        if sl.step is not None:
            raise Unsupported("slice step")
        if isinstance(o, Union):
            return self.each(o, lambda a: self.getslice2(a, lo, hi))
        return self.getslice2(o, lo, hi)

    def getslice2(self, o, lo, hi):
        if isinstance(lo, Union):
            return self.each(lo, lambda a: self.getslice2(o, a, hi))
        if isinstance(hi, Union):
            return self.each(hi, lambda a: self.getslice2(o, lo, a))
        conc = isinstance(lo, Py) and isinstance(hi, Py)
        if isinstance(o, Tup) and conc:
            return Tup(o.items[lo.v:hi.v])
        if isinstance(o, Py) and conc:
            return self.lift(o.v[lo.v:hi.v])
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, HObj) and c.model is not None and \
                    hasattr(c.model, "getslice"):
                return c.model.getslice(self, o, lo, hi)
            if isinstance(c, HList):
                if conc and c.base is None and all(g is None
                                                   for g, _ in c.items):
                    return self.new_list([x for _, x in
                                          c.items[lo.v:hi.v]])
                if c.base is not None and hasattr(c.base, "slice"):
                    return c.base.slice(self, o, c, lo, hi)
                if conc and lo.v is None and hi.v is None:
                    r = HList(base=c.base)
                    r.items = list(c.items)
                    return self.alloc(r)
                return self.sym_slice(o, c, lo, hi)
        if isinstance(o, Sym) and o.kind == "str":
            return self.str_slice(o, lo, hi)
        if isinstance(o, Py) and isinstance(o.v, str):
            return self.str_slice(o, lo, hi)
        if isinstance(o, Sym) and o.kind == "obj":
            return self.x.obj_slice(self, o, lo, hi)
        raise Unsupported("slice of %r" % (o,))

    def norm_index(self, v, n, default):
        if isinstance(v, Py) and v.v is None:
            return default
        i = self.term(v, "int")
        if isinstance(v, Py) and v.v >= 0 and (
                v.v == 0 or self.implied(i <= n)):
            return i
        i = z3.If(i < 0, n + i, i)
        return z3.simplify(z3.If(i < 0, z3.IntVal(0), z3.If(i > n, n, i)))

    def str_slice(self, o, lo, hi):
        t = self.term(o, "str")
        n = z3.Length(t)
        a = self.norm_index(lo, n, z3.IntVal(0))
        b = self.norm_index(hi, n, n)
        return Sym("str", z3.SubString(t, a, b - a), str)

    def sym_slice(self, o, c, lo, hi):
        """Slice of a list with symbolic base and no appended items."""
        if c.items and any(g is not None for g, _ in c.items):
            raise Unsupported("slice of guarded list")
        n0 = c.base.length if c.base is not None else z3.IntVal(0)
        items = [x for _, x in c.items]
        n = n0 + len(items)
        a = self.norm_index(lo, n, z3.IntVal(0))
        b = self.norm_index(hi, n, n)
        length = z3.simplify(z3.If(b > a, b - a, 0))
        base = c.base

        def at(k):
            i = z3.simplify(a + k)
            if not items:
                return base.at(i)
            alts = [(i < n0, base.at(i))] if base is not None else []
            for j, x in enumerate(items):
                alts.append((i == n0 + j, x))
            return self.union(alts)
        r = HList(base=SymSeq((base.name if base else "list") + "[]", length,
                              at))
        return self.alloc(r)

    def del_slice(self, o, sl, fr):
        lo = self.ev(sl.lower, fr) if sl.lower is not None else Py(None)
        hi = self.ev(sl.upper, fr) if sl.upper is not None else Py(None)
        if isinstance(o, Union):
            o = self.each(o, lambda a: a)
        c = self.cell(o)
        if c.frozen:
            self.frozen_write(o, "slice")
        self.note_write(("list", o.addr))
        if not isinstance(c, HList):
            raise Unsupported("del slice")
        if self.mask and isinstance(lo, Py) and isinstance(hi, Py) and \
                c.base is None and all(g is None for g, _ in c.items):
            m = conj(*self.mask)
            gone = range(len(c.items))[lo.v:hi.v]
            c.items = [(z3.Not(m) if i in gone else None, x)
                       for i, (_, x) in enumerate(c.items)]
            return
        if self.mask:
            raise Unsupported("del slice under a guard")
        if isinstance(lo, Py) and isinstance(hi, Py) and c.base is None \
                and all(g is None for g, _ in c.items):
            items = [x for _, x in c.items]
            del items[lo.v:hi.v]
            c.items = [(None, x) for x in items]
            return
        if isinstance(hi, Py) and hi.v is None:
            r = self.cell(self.sym_slice(o, c, Py(0), lo))
            c.base, c.items = r.base, r.items
            return
        raise Unsupported("del slice")

    # ------------------------------------------------------------------ dicts
    def dict_has(self, o, c, k):
        ts = []
        for g, kk, v in c.entries:
            t = self.eq_term(kk, k)
            if isinstance(t, bool):
                if not t:
                    continue
                t = z3.BoolVal(True)
            ts.append(conj(g, t))
        if c.base is not None:
            t = c.base.has(self, k)
            # entries added later shadow the base; deleted ones are noted
            ts.append(conj(t, *[z3.Not(d) for d in c.base.deleted(self, c, k)]
                           ))
        if not ts:
            return False
        t = z3.simplify(z3.Or(*ts))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return t

    def dict_get(self, o, c, k, default):
        """default None: raise KeyError when missing."""
        alts = []
        missing = []
        for g, kk, v in reversed(c.entries):
            t = self.eq_term(kk, k)
            if isinstance(t, bool):
                if not t:
                    continue
                t = z3.BoolVal(True)
            cond = z3.simplify(conj(g, t))
            if z3.is_false(cond):
                continue
            alts.append((conj(*(missing + [cond])), v))
            if z3.is_true(cond):
                missing = None
                break
            missing = missing + [z3.Not(cond)]
        if missing is not None and c.base is not None:
            t = c.base.has(self, k)
            t = conj(t, *[z3.Not(d) for d in c.base.deleted(self, c, k)])
            cond = z3.simplify(t)
            if not z3.is_false(cond):
                alts.append((conj(*(missing + [cond])), c.base.get(self, k)))
                missing = missing + [z3.Not(cond)]
        if missing is None:
            return self.union(alts) if len(alts) > 1 else alts[0][1]
        miss = conj(*missing)
        if default is not None:
            alts.append((miss, default))
            return self.union(alts)
        if self.simt:
            if self.feasible(miss):
                self.if_guarded(miss, lambda: self.do_raise(ExcVal(KeyError)))
        elif z3.is_true(z3.simplify(miss)) or self.branch(miss):
            raise SymRaise(ExcVal(KeyError))
        return self.union(alts)

    def dict_set(self, o, c, k, v):
        self.note_write(("dict", o.addr))
        if c.base is not None and hasattr(c.base, "set"):
            if c.base.set(self, o, c, k, v):
                return
        m = conj(*self.mask)
        new = [m]
        for e in c.entries:
            t = self.eq_term(e[1], k)
            if isinstance(t, bool):
                if not t:
                    continue
                t = z3.BoolVal(True)
            e[2] = self.ite(z3.simplify(conj(m, t)), v, e[2])
            new.append(z3.Not(conj(e[0], t)))
        new = z3.simplify(conj(*new))
        if not z3.is_false(new):
            c.entries.append([None if z3.is_true(new) else new, k, v])

    def dict_del(self, o, c, k):
        self.note_write(("dict", o.addr))
        m = conj(*self.mask) if self.mask else None
        for e in c.entries:
            t = self.eq_term(e[1], k)
            if isinstance(t, bool):
                if not t:
                    continue
                t = z3.BoolVal(True)
            e[0] = z3.simplify(z3.And(conj(e[0]), z3.Not(conj(m, t))))
        c.entries = [e for e in c.entries
                     if e[0] is None or not z3.is_false(e[0])]
        if c.base is not None:
            c.base.delete(self, o, c, k)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, Union):
                    v = self.each(v, lambda x: x)
                items = self.seq_items(v)
                if items is None:
                    raise Unsupported("starred call")
                args += items
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.ev(a, fr))
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.star_star(self.ev(k.value, fr)))
                continue
            kwargs[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        return self.call(f, args, kwargs)

    def star_star(self, v):
        if isinstance(v, Py) and isinstance(v.v, dict):
            return {k: self.lift(x) for k, x in v.v.items()}
        c = self.cell(v) if isinstance(v, Ref) else None
        if isinstance(c, HDict) and c.base is None and all(
                g is None and isinstance(k, Py) for g, k, _ in c.entries):
            return {k.v: x for _, k, x in c.entries}
        raise Unsupported("** call")

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Union):
            return self.each(f, lambda x: self.call(x, args, kwargs))
        if isinstance(f, Bound):
            return self.call_function(f.fn, [f.self] + list(args), kwargs)
        if isinstance(f, Method):
            return self.call_method(f, list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_node(f.node, None, list(args), kwargs, f.glob,
                                  parent=f.env, defaults=f.defaults)
        if isinstance(f, Py):
            fn = f.v
            if isinstance(fn, types.FunctionType):
                return self.call_function(fn, list(args), kwargs)
            if isinstance(fn, types.MethodType):
                return self.call_function(fn.__func__,
                                          [self.lift(fn.__self__)]
                                          + list(args), kwargs)
            if isinstance(fn, type):
                return self.construct(fn, list(args), kwargs)
            return self.call_builtin(fn, list(args), kwargs)
        if isinstance(f, Ref):
            c = self.cell(f)
            if isinstance(c, HObj):
                if c.model is not None and hasattr(c.model, "call_self"):
                    return c.model.call_self(self, f, list(args), kwargs)
                if c.cls is not None:
                    return self.call(self.class_attr(f, c.cls, "__call__"),
                                     args, kwargs)
        if isinstance(f, Sym) and f.kind == "obj":
            return self.x.obj_call(self, f, list(args), kwargs)
        raise Unsupported("call of %r" % (f,))

    def contract_for(self, fn):
        return self.contracts.get(fn)

    def call_function(self, fn, args, kwargs):
        c = self.contract_for(fn)
        if c is not None:
            self.x.used_contracts.add(getattr(fn, "__qualname__", str(fn)))
            bound = self.bind(function_node(fn), fn, args, kwargs) \
                if not getattr(c, "raw", False) else None
            if bound is not None:
                return c(self, **bound)
            return c(self, args, kwargs)
        if not subject_code(fn):
            m = self.x.models.get(fn)
            if m is not None:
                return m(self, args, kwargs)
            m = self.x.models.get(getattr(fn, "__module__", "") + "."
                                  + fn.__qualname__)
            if m is not None:
                return m(self, args, kwargs)
            if all(self.is_concrete(a) for a in args) and all(
                    self.is_concrete(a) for a in kwargs.values()) \
                    and fn.__module__ in ("re", "html"):
                return self.lift(fn(*[self.concrete(a) for a in args],
                                    **{k: self.concrete(a)
                                       for k, a in kwargs.items()}))
            raise Unsupported("library function %s.%s" % (
                fn.__module__, fn.__qualname__))
        self.x.inlined.add(fn.__qualname__)
        return self.call_node(function_node(fn), fn, args, kwargs,
                              fn.__globals__)

    def bind(self, node, fn, args, kwargs, local=()):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = list(fn.__defaults__ or ()) if fn is not None else None
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise SymRaise(ExcVal(TypeError))
            vals[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            vals[n] = v
        konly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in vals:
                raise SymRaise(ExcVal(TypeError))
            if k not in names and k not in konly:
                if a.kwarg is None:
                    raise SymRaise(ExcVal(TypeError))
                extra.append([None, Py(k), v])
                continue
            vals[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_dict(extra)
        if fn is not None:
            dn = names[len(names) - len(defaults):]
            for n, d in zip(dn, defaults):
                if n not in vals:
                    vals[n] = self.x.default_value(self, fn, n, d)
            for n in konly:
                if n not in vals and fn.__kwdefaults__ and \
                        n in fn.__kwdefaults__:
                    vals[n] = self.lift(fn.__kwdefaults__[n])
        else:
            dn = names[len(names) - len(a.defaults):]
            if len(local) != len(a.defaults):
                raise Unsupported("defaults of a nested function")
            for n, d in zip(dn, local):
                if n not in vals:
                    vals[n] = d
        for n in names + konly:
            if n not in vals:
                raise SymRaise(ExcVal(TypeError))
        return vals

    def call_node(self, node, fn, args, kwargs, glob, parent=None,
                  defaults=()):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion too deep (missing contract?)")
        env = self.bind(node, fn, args, kwargs, defaults)
        if parent is not None:
            env["__parent__"] = parent
        fr = Frame(fn.__qualname__ if fn is not None else "<nested>", env,
                   glob, parent)
        fr.func = fn
        fr.node = node
        fr.masklen = len(self.mask)
        fr.line = node.lineno
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom))
                   for n in ast.walk(node)):
                raise Unsupported("generator function")
            try:
                self.exec_block(node.body, fr)
                if not fr.returns:
                    return Py(None)
                self._live()
                live = conj(*self.mask[fr.masklen:])
                if self.check() != z3.unsat:
                    fr.returns.append((live, Py(None)))
            except SymReturn as e:
                if not fr.returns:
                    return e.value
                fr.returns.append((conj(*self.mask[fr.masklen:]), e.value))
            except Escaped:
                if not fr.returns:
                    raise
            except SymRaise as e:
                if not fr.returns:
                    raise
                self.escape(e.exc)
            return self.union(fr.returns)
        finally:
            self.depth -= 1
            self.frames.pop()
            del self.mask[fr.masklen:]

    def construct(self, cls, args, kwargs):
        c = self.contracts.get(cls)
        if c is not None:
            self.x.used_contracts.add(cls.__qualname__)
            return c(self, args, kwargs)
        if issubclass(cls, BaseException):
            return ExcVal(cls, tuple(args))
        if cls in (str, int, bool, list, tuple, dict, set, frozenset, range,
                   object, type, zip, enumerate, reversed, map):
            return self.call_builtin(cls, args, kwargs)
        if not (cls.__module__ or "").startswith(SUBJECT):
            m = self.x.models.get(cls)
            if m is not None:
                return m(self, args, kwargs)
            raise Unsupported("constructor of %s" % cls)
        if issubclass(cls, list):
            r = self.alloc(HList(cls=cls))
            init = inspect.getattr_static(cls, "__init__")
            if isinstance(init, types.FunctionType):
                self.call_function(init, [r] + args, kwargs)
            elif args:
                self.list_method(r, "extend", [args[0]], {})
            return r
        r = self.alloc(HObj(cls))
        init = inspect.getattr_static(cls, "__init__", None)
        if isinstance(init, types.FunctionType):
            self.call_function(init, [r] + args, kwargs)
        return r

    # -------------------------------------------------------------- built-ins
    def call_builtin(self, fn, args, kwargs):
        m = self.x.models.get(fn)
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(fn, types.BuiltinMethodType) and \
                isinstance(getattr(fn, "__self__", None), (str, dict, list,
                                                           _re.Pattern)):
            return self.call_method(Method(fn.__name__, Py(fn.__self__)),
                                    args, kwargs)
        name = getattr(fn, "__name__", "")
        h = getattr(self, "b_" + name, None)
        if h is not None and getattr(builtins, name, None) is fn:
            return h(args, kwargs)
        if isinstance(fn, type(str.join)) and args:
            return self.call_method(Method(fn.__name__, args[0]), args[1:],
                                    kwargs)
        if name == "__init__" and fn in (BaseException.__init__,
                                         Exception.__init__,
                                         object.__init__):
            return Py(None)
        if fn is list.__init__ and len(args) == 1 and isinstance(
                args[0], Ref) and isinstance(self.cell(args[0]), HList):
            c = self.cell(args[0])
            if c.items or c.base is not None:
                raise Unsupported("list.__init__")
            return Py(None)
        raise Unsupported("built-in %s" % (fn,))

    def b_len(self, args, kwargs):
        return self.length(args[0])

    def length(self, v):
        if isinstance(v, Union):
            return self.each(v, self.length)
        if self.is_concrete(v):
            try:
                return Py(len(self.concrete(v)))
            except TypeError:
                raise SymRaise(ExcVal(TypeError))
        if isinstance(v, Tup):
            return Py(len(v.items))
        if isinstance(v, Sym):
            if v.kind == "str":
                return Sym("int", z3.Length(v.t))
            if v.kind == "obj":
                return self.x.obj_len(self, v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList):
                n = 0
                t = c.base.length if c.base is not None else None
                gs = []
                for g, _ in c.items:
                    if g is None:
                        n += 1
                    else:
                        gs.append(z3.If(g, 1, 0))
                if t is None and not gs:
                    return Py(n)
                return Sym("int", z3.simplify(
                    z3.Sum(*([t] if t is not None else []) + gs
                           + [z3.IntVal(n)])))
            if isinstance(c, HDict):
                if c.base is None and all(e[0] is None for e in c.entries):
                    return Py(len(c.entries))
                if c.base is not None:
                    return c.base.len(self, c)
                return Sym("int", z3.Sum(*[z3.If(conj(e[0]), 1, 0)
                                           for e in c.entries]))
            if c.model is not None and hasattr(c.model, "length"):
                return c.model.length(self, v)
        raise Unsupported("len of %r" % (v,))

    def b_isinstance(self, args, kwargs):
        v, k = args
        ks = self.concrete(k)
        if not isinstance(ks, tuple):
            ks = (ks,)
        return self.isinstance_(v, ks)

    def isinstance_(self, v, ks):
        if isinstance(v, Union):
            return self.wrap_bool(self._union_rel(
                v, lambda a: self.truth(self.isinstance_(a, ks))))
        c = self.type_of(v)
        if c is None:
            if isinstance(v, (Sym, ExcVal)):
                t = v.t
                if t is None:
                    t = v.t = self.fresh("exc", Obj)
                f = z3.Function("isinst_" + "_".join(k.__name__ for k in ks),
                                Obj, Bool)
                return Sym("bool", f(t))
            raise Unsupported("isinstance of %r" % (v,))
        return Py(issubclass(c, ks))

    def type_of(self, v):
        if isinstance(v, Py):
            return type(v.v)
        if isinstance(v, Tup):
            return tuple
        if isinstance(v, Sym):
            if v.kind == "str":
                return v.cls or str
            if v.kind in ("int", "bool"):
                return {"int": int, "bool": bool}[v.kind]
            return v.cls
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList):
                return c.cls
            if isinstance(c, HDict):
                return dict
            return c.cls
        if isinstance(v, ExcVal):
            return v.cls
        return types.FunctionType

    def b_str(self, args, kwargs):
        if not args:
            return Py("")
        return self.to_str(args[0])

    def b_repr(self, args, kwargs):
        return self.repr_(args[0])

    def b_bool(self, args, kwargs):
        t = self.truth(args[0])
        return self.wrap_bool(t)

    def b_int(self, args, kwargs):
        v = args[0]
        if isinstance(v, Py):
            return Py(int(v.v))
        return Sym("int", self.term(v, "int"))

    def b_tuple(self, args, kwargs):
        if not args:
            return Tup(())
        items = self.seq_items(args[0])
        if items is not None:
            return Tup(items)
        v = args[0]
        t = self.tuple_view(v)
        if t is not None:
            return v
        raise Unsupported("tuple()")

    def tuple_view(self, v):
        if isinstance(v, (Tup,)):
            return v
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HObj) and c.cls is tuple:
                return v
        return None

    def b_list(self, args, kwargs):
        if not args:
            return self.new_list()
        v = args[0]
        if isinstance(v, Union):
            return self.each(v, lambda a: self.b_list([a], {}))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList):
                r = HList(base=c.base)
                r.items = list(c.items)
                return self.alloc(r)
            if isinstance(c, HDict) and c.base is None:
                r = HList()
                r.items = [(e[0], e[1]) for e in c.entries]
                return self.alloc(r)
            if isinstance(c, HObj) and hasattr(c.model, "to_list"):
                return c.model.to_list(self, v)
        items = self.seq_items(v)
        if items is not None:
            return self.new_list(items)
        if isinstance(v, Sym) and v.kind == "obj":
            return self.x.obj_list(self, v)
        raise Unsupported("list()")

    def b_dict(self, args, kwargs):
        entries = [[None, Py(k), v] for k, v in kwargs.items()]
        if args:
            v = args[0]
            if isinstance(v, Union):
                v = self.each(v, lambda a: a)
            if isinstance(v, Ref) and isinstance(self.cell(v), HDict):
                c = self.cell(v)
                r = HDict(base=c.base.copy() if c.base is not None else None)
                r.entries = [list(e) for e in c.entries] + entries
                return self.alloc(r)
            if isinstance(v, Py) and isinstance(v.v, dict):
                return self.new_dict([[None, self.lift(k), self.lift(x)]
                                      for k, x in v.v.items()] + entries)
            items = self.seq_items(v)
            if items is None:
                raise Unsupported("dict()")
            r = self.new_dict()
            for it in items:
                k, x = self.unpack(it, 2)
                self.setitem(r, k, x)
            for e in entries:
                self.setitem(r, e[1], e[2])
            return r
        return self.new_dict(entries)

    def b_range(self, args, kwargs):
        if all(isinstance(a, Py) for a in args):
            return Py(range(*[a.v for a in args]))
        lo, hi = (Py(0), args[0]) if len(args) == 1 else (args[0], args[1])
        step = args[2] if len(args) > 2 else Py(1)
        return self.alloc(HObj(range, {"lo": lo, "hi": hi, "step": step}))

    def b_sorted(self, args, kwargs):
        v = args[0]
        if kwargs:
            raise Unsupported("sorted with key")
        if isinstance(v, Union):
            return self.each(v, lambda a: self.b_sorted([a], {}))
        if self.is_concrete(v):
            return self.new_list([self.lift(x)
                                  for x in sorted(self.concrete(v))])
        if isinstance(v, Ref):
            c = self.cell(v)
            r = self.x.sorted_model(self, v, c)
            if r is not None:
                return r
            if isinstance(c, HList) and c.base is None and \
                    len(c.items) <= 1:
                x = HList()
                x.items = list(c.items)
                return self.alloc(x)
            if isinstance(c, HDict) and c.base is None and \
                    all(self.is_concrete(e[1]) for e in c.entries):
                x = HList()
                x.items = [(e[0], e[1]) for e in sorted(
                    c.entries, key=lambda e: self.concrete(e[1]))]
                return self.alloc(x)
            if isinstance(c, HList) and c.base is None:
                try:
                    x = HList()
                    x.items = sorted(
                        c.items, key=lambda it: self.concrete(
                            it[1].items[0] if isinstance(it[1], Tup)
                            else it[1]))
                    return self.alloc(x)
                except KeyError:
                    pass
        raise Unsupported("sorted")

    def b_reversed(self, args, kwargs):
        v = args[0]
        items = self.seq_items(v)
        if items is not None:
            return self.new_list(items[::-1])
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HList) and c.base is None:
                x = HList()
                x.items = c.items[::-1]
                return self.alloc(x)
        raise Unsupported("reversed")

    def b_enumerate(self, args, kwargs):
        items = self.seq_items(args[0])
        if items is not None:
            return self.new_list([Tup((Py(i), x))
                                  for i, x in enumerate(items)])
        return self.alloc(HObj(enumerate, {"of": args[0]}))

    def b_zip(self, args, kwargs):
        cols = [self.seq_items(a) for a in args]
        if any(c is None for c in cols):
            raise Unsupported("zip")
        return self.new_list([Tup(r) for r in zip(*cols)])

    def b_getattr(self, args, kwargs):
        o, name = args[0], args[1]
        if not isinstance(name, Py):
            raise Unsupported("getattr with symbolic name")
        if len(args) == 2:
            return self.getattr(o, name.v)
        if isinstance(o, Union):
            return self.each(o, lambda a: self.b_getattr([a] + args[1:], {}))
        try:
            return self.getattr(o, name.v)
        except SymRaise as e:
            if e.exc.cls is AttributeError:
                return args[2]
            raise

    def b_hasattr(self, args, kwargs):
        o, name = args
        if isinstance(o, Union):
            return self.each(o, lambda a: self.b_hasattr([a, name], {}))
        try:
            self.getattr(o, name.v)
            return Py(True)
        except SymRaise:
            return Py(False)

    def b_setattr(self, args, kwargs):
        self.setattr(args[0], args[1].v, args[2])
        return Py(None)

    def b_next(self, args, kwargs):
        v = args[0]
        if isinstance(v, Union):
            return self.each(v, lambda a: self.b_next([a], {}))
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, HObj) and c.model is not None and \
                    hasattr(c.model, "next"):
                return c.model.next(self, v)
        raise Unsupported("next")

    def b_iter(self, args, kwargs):
        return args[0]

    def b_callable(self, args, kwargs):
        return Py(isinstance(args[0], (Bound, Method, Closure)))

    def b_id(self, args, kwargs):
        raise Unsupported("id")

    def b_any(self, args, kwargs):
        return self._anyall(args[0], True)

    def b_all(self, args, kwargs):
        return self._anyall(args[0], False)

    def _anyall(self, v, isany):
        items = self.iter_items(v)
        if items is None:
            raise Unsupported("any/all")
        ts = []
        for g, x in items:
            t = self.truth(x)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            ts.append(conj(g, t) if isany else z3.Implies(conj(g), t))
        if not ts:
            return Py(not isany)
        return self.wrap_simpl(z3.Or(*ts) if isany else z3.And(*ts))

    def b_min(self, args, kwargs):
        return self._minmax(args, True)

    def b_max(self, args, kwargs):
        return self._minmax(args, False)

    def _minmax(self, args, lo):
        if len(args) == 1:
            args = self.seq_items(args[0])
            if args is None:
                raise Unsupported("min/max")
        if all(isinstance(a, Py) for a in args):
            return Py((min if lo else max)(a.v for a in args))
        t = self.term(args[0], "int")
        for a in args[1:]:
            u = self.term(a, "int")
            t = z3.If(u < t, u, t) if lo else z3.If(u > t, u, t)
        return Sym("int", t)

    def b_print(self, args, kwargs):
        raise Unsupported("print")

    def b_map(self, args, kwargs):
        items = self.iter_items(args[1])
        if items is None or any(g is not None for g, _ in items):
            raise Unsupported("map")
        return self.new_list([self.call(args[0], [x]) for _, x in items])

    def b_object(self, args, kwargs):
        return self.alloc(HObj(object))

    def b_set(self, args, kwargs):
        if not args:
            return self.alloc(HDict())
        if self.is_concrete(args[0]):
            return Py(frozenset(self.concrete(args[0])))
        raise Unsupported("set")

    b_frozenset = b_set

    def b_type(self, args, kwargs):
        c = self.type_of(args[0])
        if c is None:
            raise Unsupported("type()")
        return Py(c)

    def b_super(self, args, kwargs):
        fr = self.frames[-1]
        raise Unsupported("super in %s" % fr.fn)

    # -------------------------------------------------------- comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def comp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        gen = e.generators[0]
        it = self.ev(gen.iter, fr)
        if isinstance(it, Union) and not self.simt:
            it = self.each(it, lambda a: a)
        r = self.x.comp_model(self, e, gen, it, fr)
        if r is not None:
            return r
        items = self.iter_items(it) if not isinstance(it, Union) else None
        if items is None:
            raise Unsupported("comprehension over %r" % (it,))
        env = dict(fr.env)
        sub = Frame(fr.fn, env, fr.glob, fr.parent)
        sub.masklen = len(self.mask)
        sub.dead = []
        sub.line = e.lineno
        out = HList()
        self.frames.append(sub)
        try:
            for g, x in items:
                def one():
                    self.assign(gen.target, x, sub)
                    conds = []
                    for cnd in gen.ifs:
                        t = self.truth(self.ev(cnd, sub))
                        if isinstance(t, bool):
                            if not t:
                                return None
                        elif self.simt:
                            conds.append(t)
                        elif not self.branch(t):
                            return None
                    if not conds:
                        return conj(), self.ev(e.elt, sub)
                    if len(conds) > 1:
                        raise Unsupported("conditions of a comprehension")
                    r = self.guarded(conds[0], lambda: self.ev(e.elt, sub))
                    return None if r is None else (conds[0], r[0])
                if g is None:
                    r = one()
                    if r is not None:
                        out.items.append((None if z3.is_true(r[0]) else r[0],
                                          r[1]))
                elif self.simt:
                    r = self.guarded(g, one)
                    if r and r[0] is not None:
                        out.items.append((conj(g, r[0][0]), r[0][1]))
                elif self.branch(g):
                    r = one()
                    if r is not None:
                        out.items.append((None, r[1]))
        finally:
            self.frames.pop()
        return self.alloc(out)

    def e_DictComp(self, e, fr):
        raise Unsupported("dict comprehension")

    # ---------------------------------------------------------------- methods
    def call_method(self, m, args, kwargs):
        o = m.self
        if isinstance(o, Union):
            return self.each(o, lambda a: self.call_method(
                Method(m.name, a), args, kwargs))
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, HList):
                return self.list_method(o, m.name, args, kwargs)
            if isinstance(c, HDict):
                return self.dict_method(o, m.name, args, kwargs)
            if c.model is not None:
                return c.model.call(self, o, m.name, args, kwargs)
        if isinstance(o, Py):
            v = o.v
            if isinstance(v, str):
                if all(self.is_concrete(a) for a in args) and not kwargs:
                    try:
                        return self.from_py(getattr(v, m.name)(
                            *[self.concrete(a) for a in args]))
                    except Exception as e:
                        raise SymRaise(ExcVal(type(e)))
                return self.str_method(o, m.name, args, kwargs)
            if isinstance(v, dict):
                if m.name == "get":
                    d = args[1] if len(args) > 1 else Py(None)
                    if self.is_concrete(args[0]):
                        k = self.concrete(args[0])
                        return self.lift(v[k]) if k in v else d
                    alts, none = [], []
                    for kk, val in v.items():
                        t = self.eq_term(self.lift(kk), args[0])
                        if isinstance(t, bool):
                            if t:
                                return self.lift(val)
                            continue
                        alts.append((t, self.lift(val)))
                        none.append(z3.Not(t))
                    alts.append((conj(*none), d))
                    return self.union(alts)
                if m.name == "items":
                    return self.new_list([Tup((self.lift(a), self.lift(b)))
                                          for a, b in v.items()])
                if m.name == "keys":
                    return self.new_list([self.lift(a) for a in v])
                if m.name == "values":
                    return self.new_list([self.lift(a) for a in v.values()])
                if m.name == "copy":
                    return self.new_dict([[None, self.lift(a), self.lift(b)]
                                          for a, b in v.items()])
            if isinstance(v, _re.Pattern):
                return self.x.re_method(self, v, m.name, args, kwargs)
        if isinstance(o, Sym):
            if o.kind == "str":
                return self.str_method(o, m.name, args, kwargs)
            if o.kind == "obj":
                return self.x.obj_method(self, o, m.name, args, kwargs)
        if isinstance(o, Tup):
            if m.name == "__contains__":
                return self.contains(o, args[0])
        if isinstance(o, ExcVal):
            return Py(None)
        raise Unsupported("method %s of %r" % (m.name, o))

    def from_py(self, v):
        if isinstance(v, list):
            return self.new_list([self.from_py(x) for x in v])
        return self.lift(v)

    def list_method(self, o, name, args, kwargs):
        c = self.cell(o)
        if name in ("append", "extend", "pop", "remove", "insert", "reverse",
                    "clear", "sort"):
            if c.frozen:
                self.frozen_write(o, "list.%s" % name)
            self.note_write(("list", o.addr))
        g = conj(*self.mask) if self.mask else None
        if name == "append":
            if c.base is not None and hasattr(c.base, "append"):
                if c.base.append(self, o, c, args[0]):
                    return Py(None)
            c.items.append((g, args[0]))
            return Py(None)
        if name == "write":          # FasterStringIO.write = list.append
            c.items.append((g, args[0]))
            return Py(None)
        if name == "extend":
            v = args[0]
            if isinstance(v, Union):
                def f(a):
                    self.list_method(o, "extend", [a], {})
                    return Py(None)
                return self.each(v, f)
            if isinstance(v, Ref) and isinstance(self.cell(v), HList):
                cv = self.cell(v)
                if cv.base is None:
                    for g2, x in cv.items:
                        gg = conj(g, g2)
                        c.items.append((None if z3.is_true(gg) else gg, x))
                    return Py(None)
                if self.mask:
                    raise Unsupported("extend under a guard")
                if c.base is not None and hasattr(c.base, "extend_seq"):
                    c.base.extend_seq(self, o, c, v, cv)
                    return Py(None)
                if c.base is None and not c.items:
                    c.base, c.items = cv.base, list(cv.items)
                    return Py(None)
                return self.sym_extend(o, c, cv)
            items = self.iter_items(v)
            if items is None:
                raise Unsupported("extend")
            for g2, x in items:
                gg = conj(g, g2)
                c.items.append((None if z3.is_true(gg) else gg, x))
            return Py(None)
        if name == "pop":
            if args:
                if not (isinstance(args[0], Py) and args[0].v == -1):
                    if isinstance(args[0], Py) and c.base is None and not \
                            self.mask and all(
                            gg is None for gg, _ in c.items):
                        try:
                            return c.items.pop(args[0].v)[1]
                        except IndexError:
                            raise SymRaise(ExcVal(IndexError))
                    raise Unsupported("pop(i)")
            if not c.items:
                if c.base is None:
                    raise SymRaise(ExcVal(IndexError))
                if self.mask:
                    raise Unsupported("pop under a guard")
                return self.base_pop(o, c)
            if not self.mask and c.items[-1][0] is None:
                return c.items.pop()[1]
            if not self.simt:
                # fork on the presence of the last element
                gg, v = c.items[-1]
                if self.branch(conj(gg)):
                    c.items.pop()
                    return v
                c.items.pop()
                return self.list_method(o, "pop", args, kwargs)
            return self.list_last(o, c, pop=True)
        if name == "remove":
            for i, (gg, x) in enumerate(c.items):
                if x is args[0] or self.same(x, args[0]):
                    if gg is None and not self.mask:
                        del c.items[i]
                        return Py(None)
            raise Unsupported("list.remove")
        if name == "reverse":
            if c.base is None:
                if self.mask and c.items:
                    raise Unsupported("guarded reverse")
                c.items.reverse()
                return Py(None)
            if hasattr(c.base, "reverse"):
                return c.base.reverse(self, o, c)
        if name == "insert" and c.base is None and isinstance(args[0], Py) \
                and all(gg is None for gg, _ in c.items) and not self.mask:
            c.items.insert(args[0].v, (None, args[1]))
            return Py(None)
        if name == "copy":
            return self.b_list([o], {})
        if name == "index" and self.is_concrete(args[0]):
            items = self.seq_items(o)
            if items is not None:
                for i, x in enumerate(items):
                    if self.eq_term(x, args[0]) is True:
                        return Py(i)
        if name == "__getitem__":
            return self.getitem(o, args[0])
        if name == "__init__":
            if args:
                return self.list_method(o, "extend", args, {})
            return Py(None)
        raise Unsupported("list.%s" % name)

    def base_pop(self, o, c):
        L = c.base.length
        if not self.branch(L > 0):
            raise SymRaise(ExcVal(IndexError))
        v = c.base.at(z3.simplify(L - 1))
        c.base = SymSeq(c.base.name, z3.simplify(L - 1), c.base.at)
        return v

    def sym_extend(self, o, c, cv):
        """Append a symbolic sequence to a list."""
        if any(g is not None for g, _ in c.items + cv.items):
            raise Unsupported("extend guarded")
        a, b = c, cv
        n0 = a.base.length if a.base is not None else z3.IntVal(0)
        ai = [x for _, x in a.items]
        n1 = z3.simplify(n0 + len(ai))
        m0 = b.base.length
        abase, bbase = a.base, b.base

        def at(k):
            alts = []
            if abase is not None:
                alts.append((k < n0, abase.at(k)))
            for j, x in enumerate(ai):
                alts.append((k == n0 + j, x))
            alts.append((k >= n1, bbase.at(z3.simplify(k - n1))))
            # a decided position needs no union
            for g, x in alts:
                if self.implied(g):
                    return x
            return self.union(alts)
        c.base = SymSeq(bbase.name + "+", z3.simplify(n1 + m0), at)
        c.items = list(b.items)
        return Py(None)

    def dict_method(self, o, name, args, kwargs):
        c = self.cell(o)
        if name == "get":
            d = args[1] if len(args) > 1 else Py(None)
            return self.dict_get(o, c, args[0], d)
        if name in ("pop", "update", "setdefault", "clear", "popitem"):
            if c.frozen:
                self.frozen_write(o, "dict.%s" % name)
        if name == "pop":
            d = args[1] if len(args) > 1 else None
            v = self.dict_get(o, c, args[0], d)
            self.dict_del(o, c, args[0])
            return v
        if name == "update":
            v = args[0]
            if isinstance(v, Union):
                v = self.each(v, lambda a: a)
            if isinstance(v, Ref) and isinstance(self.cell(v), HDict) and \
                    self.cell(v).base is None:
                for g, k, x in self.cell(v).entries:
                    if g is None:
                        self.dict_set(o, c, k, x)
                    elif self.simt:
                        def one():
                            self.dict_set(o, c, k, x)
                            return Py(None)
                        self.guarded(g, one)
                    elif self.branch(g):
                        self.dict_set(o, c, k, x)
                return Py(None)
            r = self.x.dict_update(self, o, c, v)
            if r:
                return Py(None)
            raise Unsupported("dict.update")
        if name == "setdefault":
            d = args[1] if len(args) > 1 else Py(None)
            has = self.dict_has(o, c, args[0])
            if has is True:
                return self.dict_get(o, c, args[0], None)
            if has is False or not self.branch(has):
                self.dict_set(o, c, args[0], d)
                return d
            return self.dict_get(o, c, args[0], None)
        if name in ("items", "keys", "values"):
            if c.base is not None:
                return self.alloc(HObj(None, {"dict": o, "what": Py(name)},
                                       model=_DictView()))
            r = HList()
            for g, k, v in c.entries:
                r.items.append((g, Tup((k, v)) if name == "items" else
                                k if name == "keys" else v))
            return self.alloc(r)
        if name == "copy":
            return self.b_dict([o], {})
        if name == "__contains__":
            return self.contains(o, args[0])
        raise Unsupported("dict.%s" % name)

    # ---------------------------------------------------------------- strings
    def str_method(self, o, name, args, kwargs):
        return self.x.str_method(self, o, name, args, kwargs)


class _DictView:
    def getattr(self, I, o, name):
        return None

    def call(self, I, o, name, args, kw):
        raise Unsupported("dict view method")


class TupleCat:
    """Concatenation of tuples of which at least one is opaque."""

    def __init__(self, parts):
        self.parts = parts

    def getattr(self, I, o, name):
        return None


import operator as _op  # noqa: E402

_PYOPS = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul,
          ast.Mod: _op.mod, ast.FloorDiv: _op.floordiv, ast.Div: _op.truediv,
          ast.BitOr: _op.or_, ast.BitAnd: _op.and_, ast.Pow: _op.pow}
_PYCMP = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}


def strval(s):
    return z3.StringVal(s)


def strof(t):
    """Python string of a z3 string constant."""
    s = t.as_string()
    return _re.sub(r"\\u\{([0-9a-fA-F]+)\}",
                   lambda m: chr(int(m.group(1), 16)), s)
