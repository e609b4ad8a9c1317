"""Decision procedures for chains of string rewrites.

Strings are arbitrary Python strings.  A rewrite (str.replace, re.sub with a
template, per-character maps, constant prefixes and suffixes) is turned into a
finite-state transducer.  Regular expressions keep Python's meaning: leftmost
match, backtracking priority, lookaheads, flags.  Single-character tests are
evaluated with the re module itself over all 0x110000 code points, and code
points that no test distinguishes are put in one class, represented by two
letters (two are enough to tell apart where a copied character came from).

Decided exactly, for strings of any length:
  * image_included(f, L):  f(s) is in the regular language L for every s (in D)
  * equivalent(f, g):      f(s) == g(s) for every s (in D)
Both give a shortest or at least concrete counterexample otherwise.
"""
import re
from collections import deque

try:
    from re import _parser as sre_parse, _compiler as sre_compile
    from re import _constants as sc
except ImportError:                                   # pragma: no cover
    import sre_parse
    import sre_compile
    import sre_constants as sc

SEP = "<SEP>"        # letter outside Unicode, used to encode lists of strings


class Unsupported(Exception):
    pass


_ALL = None


def _all_chars():
    global _ALL
    if _ALL is None:
        _ALL = "".join(map(chr, range(0x110000)))
    return _ALL


# ---------------------------------------------------------------- characters
class CharTest:
    """A predicate on single characters with re's own semantics."""

    _cache = {}

    def __init__(self, key, rx, src):
        self.key, self.rx, self.src = key, rx, src

    @classmethod
    def from_op(cls, op, av, flags):
        flags &= (re.I | re.S | re.A | re.U | re.L)
        key = (str(op), repr(av), int(flags))
        t = cls._cache.get(key)
        if t is None:
            st = sre_parse.State()
            st.flags = int(flags) | re.U if not flags & re.A else int(flags)
            sp = sre_parse.SubPattern(st, [(op, av)])
            rx = sre_compile.compile(sp, st.flags)
            t = cls._cache[key] = cls(key, rx, repr(av))
        return t

    @classmethod
    def chars(cls, s):
        key = ("chars", s)
        t = cls._cache.get(key)
        if t is None:
            rx = re.compile("[" + "".join("\\U%08x" % ord(c) for c in s)
                            + "]", re.S)
            t = cls._cache[key] = cls(key, rx, repr(s))
        return t

    def __call__(self, letter):
        return letter != SEP and self.rx.match(letter) is not None

    def intervals(self):
        if not hasattr(self, "_iv"):
            # Runs of matching code points.
            iv = []
            start = prev = None
            for m in self.rx.finditer(_all_chars()):
                i = m.start()
                if start is None:
                    start = prev = i
                elif i == prev + 1:
                    prev = i
                else:
                    iv.append((start, prev + 1))
                    start = prev = i
            if start is not None:
                iv.append((start, prev + 1))
            self._iv = iv
        return self._iv


class Alphabet:
    def __init__(self, tests, sep=False):
        tests = list({t.key: t for t in tests}.values())
        cuts = {0, 0x110000}
        for t in tests:
            for a, b in t.intervals():
                cuts.add(a)
                cuts.add(b)
        cuts = sorted(cuts)
        groups = {}
        import bisect
        starts = [(t, [a for a, b in t.intervals()], t.intervals())
                  for t in tests]
        for a, b in zip(cuts, cuts[1:]):
            sig = []
            for t, st, iv in starts:
                k = bisect.bisect_right(st, a) - 1
                sig.append(k >= 0 and iv[k][1] > a)
            groups.setdefault(tuple(sig), []).append((a, b))
        self.letters = []
        self.classes = len(groups)
        for sig, ivs in groups.items():
            reps = []
            # Prefer printable ASCII letters as representatives.
            for a, b in ivs:
                for c in range(a, min(b, a + 200)):
                    reps.append(chr(c))
            reps.sort(key=lambda c: (not (c.isascii() and c.isprintable()),
                                     not c.isalnum(), 0xD800 <= ord(c) < 0xE000,
                                     ord(c)))
            self.letters.extend(reps[:2])
        if sep:
            self.letters.append(SEP)
        self.set = set(self.letters)


# ------------------------------------------------------------------- regexes
class Node:
    __slots__ = ("kind", "a", "b", "next", "id", "copy")

    def __init__(self, kind, a=None, b=None, next=None, copy=True):
        self.kind, self.a, self.b, self.next = kind, a, b, next
        self.copy = copy


class NFA:
    """Prioritised NFA of one regular expression (or several alternatives
    with different replacement texts)."""

    def __init__(self):
        self.nodes = []
        self.tests = []

    def new(self, *a, **k):
        n = Node(*a, **k)
        n.id = len(self.nodes)
        self.nodes.append(n)
        return n

    def seq(self, items, nxt, flags, ctx):
        for op, av in reversed(list(items)):
            nxt = self.item(op, av, nxt, flags, ctx)
        return nxt

    def item(self, op, av, nxt, flags, ctx):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            t = CharTest.from_op(op, av, flags)
            self.tests.append(t)
            return self.new("char", t, None, nxt, copy=ctx["copy"])
        if op is sc.SUBPATTERN:
            group, add, rem, p = av
            fl = (flags | add) & ~rem
            if ctx.get("marks") and group is not None:
                if ctx["depth"] > 1:
                    raise Unsupported("group in a repetition")
                end = self.new("mark", chr(0xE001 + 2 * group), None, nxt)
                return self.new("mark", chr(0xE000 + 2 * group), None,
                                self.seq(p, end, fl, ctx))
            tpl = ctx.get("template")
            if tpl and group in tpl:
                if ctx["depth"]:
                    raise Unsupported("optional group in template")
                lit_after = tpl[group]
                end = self.new("mark", lit_after, None, nxt)
                c2 = dict(ctx, copy=True)
                return self.seq(p, end, fl, c2)
            return self.seq(p, nxt, fl, ctx)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            c2 = dict(ctx, depth=ctx["depth"] + (1 if hi == 1 else 2))
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT:
                if _nullable(p):
                    raise Unsupported("nullable loop")
                loop = self.new("split")
                body = self.seq(p, loop, flags, c2)
                loop.a = [body, nxt] if greedy else [nxt, body]
                cur = loop
            else:
                if hi - lo > 20:
                    raise Unsupported("large repeat")
                cur = nxt
                for _ in range(hi - lo):
                    body = self.seq(p, cur, flags, c2)
                    cur = self.new("split", [body, nxt] if greedy
                                   else [nxt, body])
            for _ in range(lo):
                cur = self.seq(p, cur, flags, c2)
            return cur
        if op is sc.BRANCH:
            c2 = dict(ctx, depth=ctx["depth"] + 1)
            return self.new("split",
                            [self.seq(p, nxt, flags, c2) for p in av[1]])
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                raise Unsupported("lookbehind")
            acc = self.new("acc")
            sub = self.seq(p, acc, flags, dict(copy=False, depth=0))
            return self.new("look", sub, op is sc.ASSERT_NOT, nxt)
        if op is sc.AT:
            if av is sc.AT_END_STRING:
                return self.new("end", "Z", None, nxt)
            if av is sc.AT_END and not flags & re.M:
                return self.new("end", "$", None, nxt)
            raise Unsupported("anchor %s" % av)
        raise Unsupported("regex item %s" % op)


def _nullable(p):
    return p.getwidth()[0] == 0


def _template_parts(repl, rx):
    """[lit0, group1, lit1, ...] of a replacement template."""
    t = sre_parse.parse_template(repl, rx)
    if isinstance(t, tuple):                          # Python < 3.12
        groups, literals = t
        parts = []
        g = dict(groups)
        cur = ""
        for i, lit in enumerate(literals):
            if i in g:
                parts += [cur, g[i]]
                cur = ""
            else:
                cur += lit
        parts.append(cur)
        return parts
    parts = list(t)
    if len(parts) % 2 == 0:
        parts.append("")
    return parts


class RegexMachine:
    """Right-to-left viability automaton plus left-to-right match selection."""

    def __init__(self, alts, at_start=False):
        """alts: list of (regex source, flags, replacement template or None).
        """
        nfa = self.nfa = NFA()
        starts = []
        for src, flags, repl in alts:
            rx = re.compile(src, flags)
            p = sre_parse.parse(src, flags)
            fl = p.state.flags
            acc = nfa.new("acc")
            ctx = dict(copy=False, depth=0)
            pre = ""
            if repl is not None:
                if _nullable(p):
                    raise Unsupported("nullable pattern in sub")
                parts = _template_parts(repl, rx)
                pre = parts[0]
                order = parts[1::2]
                if 0 in order:
                    if order != [0]:
                        raise Unsupported("template with \\g<0> and groups")
                    ctx["copy"] = True
                    acc0 = acc
                    acc = nfa.new("mark", parts[2], None, acc0)
                else:
                    if order != sorted(set(order)):
                        raise Unsupported("template order")
                    ctx["template"] = dict(zip(order, parts[2::2]))
            s = nfa.seq(p, acc, fl, ctx)
            if pre:
                s = nfa.new("mark", pre, None, s)
            starts.append(s)
        self.start = starts[0] if len(starts) == 1 else nfa.new("split",
                                                                 starts)
        self.tests = list(nfa.tests)
        if any(n.kind == "end" and n.a == "$" for n in nfa.nodes):
            self.tests.append(CharTest.chars("\n"))
        self._order()

    def _order(self):
        """Dependency order of lookaheads: evaluate subs first by iterating to
        a fixpoint in strata."""
        strata = {}

        def stratum(n, seen):
            if n.id in strata:
                return strata[n.id]
            if n.id in seen:
                return 0
            seen = seen | {n.id}
            s = 0
            if n.kind == "look":
                s = max(stratum_closure(n.a) + 1, stratum(n.next, seen))
            elif n.kind == "split":
                s = max(stratum(x, seen) for x in n.a)
            elif n.next is not None:
                s = stratum(n.next, seen)
            return s

        def stratum_closure(n):
            return stratum(n, frozenset())

        for n in self.nfa.nodes:
            strata[n.id] = stratum(n, frozenset())
        self.strata = strata
        self.by_stratum = {}
        for n in self.nfa.nodes:
            self.by_stratum.setdefault(strata[n.id], []).append(n)

    # a right state is (frozenset of viable node ids, info)
    # info: 0 = at end, 1 = before a final "\n" only, 2 = other
    def _close(self, base, info):
        v = set(base)
        for s in sorted(self.by_stratum):
            nodes = self.by_stratum[s]
            changed = True
            while changed:
                changed = False
                for n in nodes:
                    if n.id in v:
                        continue
                    k = n.kind
                    if k == "acc":
                        ok = True
                    elif k == "split":
                        ok = any(x.id in v for x in n.a)
                    elif k == "mark":
                        ok = n.next.id in v
                    elif k == "look":
                        ok = ((n.a.id in v) != n.b) and n.next.id in v
                    elif k == "end":
                        ok = (info == 0 or (n.a == "$" and info == 1)) \
                            and n.next.id in v
                    else:
                        ok = False
                    if ok:
                        v.add(n.id)
                        changed = True
        return (frozenset(v), info)

    def build(self, letters):
        self.end = self._close((), 0)
        self.step_cache = {}
        states = {self.end: 0}
        todo = [self.end]
        pred = {}           # (V, c) -> list of V' with step(V', c) == V
        while todo:
            v1 = todo.pop()
            for c in letters:
                v0 = self._step(v1, c)
                pred.setdefault((v0, c), []).append(v1)
                if v0 not in states:
                    states[v0] = len(states)
                    todo.append(v0)
        self.states = states
        self.pred = pred

    def _step(self, v1, c):
        key = (v1, c)
        r = self.step_cache.get(key)
        if r is None:
            if c == SEP:
                # A separator is an end of string for everything before it.
                r = self.end
            else:
                base = [n.id for n in self.nfa.nodes
                        if n.kind == "char" and n.next.id in v1[0] and n.a(c)]
                info = 1 if (v1[1] == 0 and c == "\n") else 2
                r = self._close(base, info)
            self.step_cache[key] = r
        return r

    def follow(self, n, v):
        """Highest-priority viable path from node n: (emitted text, node)."""
        out = []
        while True:
            if n.kind == "char":
                return "".join(out), n
            if n.kind == "acc":
                return "".join(out), None
            if n.kind == "split":
                for x in n.a:
                    if x.id in v[0]:
                        n = x
                        break
                else:
                    raise AssertionError("not viable")
            elif n.kind == "mark":
                out.append(n.a)
                n = n.next
            else:
                n = n.next


# --------------------------------------------------------------- transducers
class FST:
    """starts: list of (state, initial output tuple);
    arcs[state] = list of (letter, output tuple, state);
    final: state -> output tuple."""

    def __init__(self):
        self.arcs = []
        self.final = {}
        self.starts = []

    def add(self):
        self.arcs.append([])
        return len(self.arcs) - 1

    def size(self):
        return len(self.arcs), sum(map(len, self.arcs))

    def trim(self):
        succ = self.arcs
        seen = set()
        todo = [s for s, _ in self.starts]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            todo.extend(d for _, _, d in succ[s])
        rev = {}
        for s in seen:
            for _, _, d in succ[s]:
                rev.setdefault(d, []).append(s)
        co = set()
        todo = [s for s in self.final if s in seen]
        while todo:
            s = todo.pop()
            if s in co:
                continue
            co.add(s)
            todo.extend(rev.get(s, ()))
        keep = sorted(seen & co)
        num = {s: i for i, s in enumerate(keep)}
        f = FST()
        f.arcs = [list(dict.fromkeys((c, o, num[d]) for c, o, d in succ[s]
                                     if d in num)) for s in keep]
        f.final = {num[s]: o for s, o in self.final.items() if s in num}
        f.starts = [(num[s], o) for s, o in self.starts if s in num]
        return f

    def merge_states(self):
        """Merge states with equal futures (partition refinement)."""
        cls = [self.final.get(s, None) for s in range(len(self.arcs))]
        ids = {}
        cls = [ids.setdefault(c, len(ids)) for c in cls]
        while True:
            ids = {}
            new = []
            for s in range(len(self.arcs)):
                sig = (cls[s], frozenset((c, o, cls[d])
                                         for c, o, d in self.arcs[s]))
                new.append(ids.setdefault(sig, len(ids)))
            if len(set(new)) == len(set(cls)):
                break
            cls = new
        n = len(set(new))
        f = FST()
        f.arcs = [[] for _ in range(n)]
        done = set()
        for s in range(len(self.arcs)):
            k = new[s]
            if k in done:
                continue
            done.add(k)
            f.arcs[k] = list(dict.fromkeys((c, o, new[d])
                                           for c, o, d in self.arcs[s]))
        f.final = {new[s]: o for s, o in self.final.items()}
        f.starts = list(dict.fromkeys((new[s], o) for s, o in self.starts))
        return f

    def run(self, word):
        """All outputs for a word (list of letters)."""
        cur = {(s, o) for s, o in self.starts}
        for c in word:
            cur = {(d, o + o2) for s, o in cur for cc, o2, d in self.arcs[s]
                   if cc == c}
        return {o + self.final[s] for s, o in cur if s in self.final}


def _letters_of(text):
    return tuple(text)


def identity(alpha):
    f = FST()
    s = f.add()
    f.starts = [(s, ())]
    f.final = {s: ()}
    f.arcs[s] = [(c, (c,), s) for c in alpha.letters]
    return f


def charmap(alpha, fn):
    f = FST()
    s = f.add()
    f.starts = [(s, ())]
    f.final = {s: ()}
    f.arcs[s] = [(c, (c,) if c == SEP else tuple(fn(c)), s)
                 for c in alpha.letters]
    return f


def affix(alpha, prefix, suffix):
    f = identity(alpha)
    f.starts = [(0, tuple(prefix))]
    f.final = {0: tuple(suffix)}
    return f


def regex_sub(alpha, machine):
    machine.build(alpha.letters)
    f = FST()
    ids = {}
    todo = []

    def state(mode, v):
        k = (mode, v)
        if k not in ids:
            ids[k] = f.add()
            todo.append(k)
        return ids[k]

    for v in machine.states:
        f.starts.append((state(None, v), ()))
    nodes = machine.nfa.nodes
    while todo:
        mode, v = todo.pop()
        s = ids[(mode, v)]
        if mode is None and v == machine.end:
            f.final[s] = ()
        for c in alpha.letters:
            for v1 in machine.pred.get((v, c), ()):
                if mode is None:
                    if c == SEP or machine.start.id not in v[0]:
                        f.arcs[s].append((c, (c,), state(None, v1)))
                        continue
                    text, node = machine.follow(machine.start, v)
                    if node is None:
                        raise Unsupported("empty match")
                    out = tuple(text)
                else:
                    node = nodes[mode]
                    out = ()
                    if c == SEP:
                        continue
                if not node.a(c) or node.next.id not in v1[0]:
                    continue
                if node.copy:
                    out = out + (c,)
                text, nn = machine.follow(node.next, v1)
                out = out + tuple(text)
                f.arcs[s].append((c, out, state(None if nn is None
                                                else nn.id, v1)))
    return f.trim().merge_states()


def compose(a, b):
    """x -> b(a(x))"""
    f = FST()
    ids = {}
    todo = []

    def state(k):
        if k not in ids:
            ids[k] = f.add()
            todo.append(k)
        return ids[k]

    index = {}

    def moves(q, word):
        """(output, state) pairs of b reading word from q."""
        cur = [((), q)]
        for c in word:
            nxt = []
            for o, s in cur:
                key = (s, c)
                if key not in index:
                    index[key] = [(o2, d) for cc, o2, d in b.arcs[s]
                                  if cc == c]
                for o2, d in index[key]:
                    nxt.append((o + o2, d))
            cur = nxt
        return cur

    for sa, oa in a.starts:
        for sb, ob in b.starts:
            for o, d in moves(sb, oa):
                f.starts.append((state((sa, d)), ob + o))
    while todo:
        k = todo.pop()
        sa, sb = k
        s = ids[k]
        if sa in a.final:
            for o, d in moves(sb, a.final[sa]):
                if d in b.final:
                    f.final[s] = o + b.final[d]
        for c, oa, da in a.arcs[sa]:
            for o, d in moves(sb, oa):
                f.arcs[s].append((c, o, state((da, d))))
    return f.trim().merge_states()


def restrict(fst, alpha, machine, negate=False):
    """fst limited to inputs on which the (full-match) machine accepts."""
    machine.build(alpha.letters)
    g = FST()
    ids = {}
    todo = []

    def state(k):
        if k not in ids:
            ids[k] = g.add()
            todo.append(k)
        return ids[k]

    for s, o in fst.starts:
        for v in machine.states:
            if (machine.start.id in v[0]) != negate:
                g.starts.append((state((s, v)), o))
    while todo:
        k = todo.pop()
        s, v = k
        n = ids[k]
        if s in fst.final and v == machine.end:
            g.final[n] = fst.final[s]
        for c, o, d in fst.arcs[s]:
            for v1 in machine.pred.get((v, c), ()):
                g.arcs[n].append((c, o, state((d, v1))))
    return g.trim().merge_states()


def union(a, b):
    """Union of transducers with disjoint domains."""
    f = FST()
    n = len(a.arcs)
    f.arcs = [list(x) for x in a.arcs] + \
        [[(c, o, d + n) for c, o, d in x] for x in b.arcs]
    f.final = dict(a.final)
    f.final.update({s + n: o for s, o in b.final.items()})
    f.starts = list(a.starts) + [(s + n, o) for s, o in b.starts]
    return f


def drop_last_part(alpha):
    """Remove the last separator and everything after it."""
    f = FST()
    p, q = f.add(), f.add()
    f.starts = [(p, ())]
    for c in alpha.letters:
        f.arcs[p].append((c, (c,), p))
        if c == SEP:
            f.arcs[p].append((c, (), q))
        else:
            f.arcs[q].append((c, (), q))
    f.final = {q: ()}
    return f


def image_included(fst, alpha, machine):
    """Is every output of fst accepted by the machine (as a full match)?
    Returns None if so, else an input word that violates it."""
    machine.build(alpha.letters)

    def back(word, v):
        for c in reversed(word):
            v = machine._step(v, c)
        return v

    preds = machine.pred

    def fwd(v, word):
        cur = [v]
        for c in word:
            cur = [v1 for x in cur for v1 in preds.get((x, c), ())]
        return cur

    start = []
    for s, o in fst.starts:
        for v in machine.states:
            if machine.start.id in v[0]:
                continue
            for v1 in fwd(v, o):
                start.append((s, v1))
    seen = {}
    todo = deque()
    for k in start:
        if k not in seen:
            seen[k] = None
            todo.append(k)
    while todo:
        k = todo.popleft()
        s, v = k
        if s in fst.final and back(fst.final[s], machine.end) == v:
            return _path(seen, k)
        for c, o, d in fst.arcs[s]:
            for v1 in fwd(v, o):
                k1 = (d, v1)
                if k1 not in seen:
                    seen[k1] = (k, c)
                    todo.append(k1)
    return None


def _path(seen, k):
    word = []
    while seen[k] is not None:
        k, c = seen[k]
        word.append(c)
    word.reverse()
    return word


def equivalent(a, b, limit=400000):
    """None if a and b are equal as functions (and have equal domains),
    else a list of candidate input words, one of which distinguishes them."""
    fw = {}
    order = []
    for sa, _ in a.starts:
        for sb, _ in b.starts:
            k = (sa, sb)
            if k not in fw:
                fw[k] = None
                order.append(k)
    barcs = []
    for s in range(len(b.arcs)):
        d = {}
        for c, o, t in b.arcs[s]:
            d.setdefault(c, []).append((o, t))
        barcs.append(d)
    i = 0
    rev = {}
    while i < len(order):
        k = order[i]
        i += 1
        if i > limit:
            raise Unsupported("equivalence product too large")
        sa, sb = k
        for c, oa, da in a.arcs[sa]:
            for ob, db in barcs[sb].get(c, ()):
                k1 = (da, db)
                rev.setdefault(k1, []).append((k, c))
                if k1 not in fw:
                    fw[k1] = (k, c)
                    order.append(k1)
    # co-accessible pairs, with a suffix leading to acceptance
    suffix = {}
    todo = deque(k for k in order if k[0] in a.final and k[1] in b.final)
    for k in todo:
        suffix[k] = None
    while todo:
        k = todo.popleft()
        for k0, c in rev.get(k, ()):
            if k0 not in suffix:
                suffix[k0] = (c, k)
                todo.append(k0)

    def tail(k):
        w = []
        while suffix[k] is not None:
            c, k = suffix[k]
            w.append(c)
        return w

    delay = {}
    parent = {}
    todo = deque()

    def push(k, da, db, par):
        # normalise delay
        n = 0
        m = min(len(da), len(db))
        while n < m and da[n] == db[n]:
            n += 1
        da, db = da[n:], db[n:]
        bad = da and db
        if k not in delay:
            delay[k] = (da, db)
            parent[k] = par
            if not bad:
                todo.append(k)
        elif delay[k] != (da, db):
            bad = True
        if bad:
            w = _path2(parent, par) if par else []
            w1 = w + tail(k)
            w2 = (_path2(parent, (k, None)) if parent.get(k) is not None
                  else []) + tail(k)
            return [w1, w2]
        if k[0] in a.final and k[1] in b.final:
            if da + a.final[k[0]] != db + b.final[k[1]]:
                return [_path2(parent, par) if par else []]
        return None

    for sa, oa in a.starts:
        for sb, ob in b.starts:
            k = (sa, sb)
            if k in suffix:
                r = push(k, oa, ob, None)
                if r:
                    return r
    while todo:
        k = todo.popleft()
        da, db = delay[k]
        sa, sb = k
        for c, oa, ta in a.arcs[sa]:
            for ob, tb in barcs[sb].get(c, ()):
                k1 = (ta, tb)
                if k1 not in suffix:
                    continue
                r = push(k1, da + oa, db + ob, (k, c))
                if r:
                    return r
    # equal domains?  both are total here unless restricted alike
    return None


def _path2(parent, par):
    w = []
    while par is not None:
        k, c = par
        if c is not None:
            w.append(c)
        par = parent[k]
    w.reverse()
    return w


def restrict_by(f, cond):
    """f limited to the domain of cond (outputs of cond are ignored)."""
    g = FST()
    ids = {}
    todo = []

    def state(k):
        if k not in ids:
            ids[k] = g.add()
            todo.append(k)
        return ids[k]

    for s, o in f.starts:
        for t, _ in cond.starts:
            g.starts.append((state((s, t)), o))
    index = {}
    for t, arcs in enumerate(cond.arcs):
        for c, _, d in arcs:
            index.setdefault((t, c), set()).add(d)
    while todo:
        k = todo.pop()
        s, t = k
        n = ids[k]
        if s in f.final and t in cond.final:
            g.final[n] = f.final[s]
        for c, o, d in f.arcs[s]:
            for e in index.get((t, c), ()):
                g.arcs[n].append((c, o, state((d, e))))
    return g.trim().merge_states()


def has_sep(alpha, yes=True):
    """Identity on encoded lists with more than one part (or exactly one)."""
    f = FST()
    p, q = f.add(), f.add()
    f.starts = [(p, ())]
    for c in alpha.letters:
        f.arcs[p].append((c, (c,), q if c == SEP else p))
        f.arcs[q].append((c, (c,), q))
    f.final = {q: ()} if yes else {p: ()}
    return f.trim()


def last_part(alpha, machine, negate=False):
    """Identity on encoded lists whose last part the machine accepts."""
    plain = identity(alpha)
    plain.arcs[0] = [a for a in plain.arcs[0] if a[0] != SEP]
    g = restrict(plain, alpha, machine, negate)
    p = g.add()
    heads = list(g.starts)
    for c in alpha.letters:
        g.arcs[p].append((c, (c,), p))
        if c == SEP:
            for s, _ in heads:
                g.arcs[p].append((c, (c,), s))
    g.starts.append((p, ()))
    return g.trim()


def is_empty(f):
    return not f.trim().starts
