"""Small functions on which the evaluator is compared with CPython.

Parameters are named after their type: i, j, k integers; s, t, u strings;
p, q truth values.
"""


class Box:
    limit = 3

    def __init__(self, value, more=None):
        self.value = value
        if more is None:
            more = []
        self.more = more

    def add(self, x):
        self.more.append(x)
        self.value += 1
        return self

    @property
    def size(self):
        return len(self.more)

    @staticmethod
    def twice(x):
        return x * 2


class Sub(Box):
    def add(self, x):
        Box.add(self, x)
        self.value *= 2
        return self


class Odd(Exception):
    pass


class Odder(Odd):
    b = 7


def arith(i, j):
    x = i + j * 2 - 3
    if x > j:
        x -= 1
    elif x == i:
        return -x
    return x


def chain(i, j, k):
    return i < j <= k != 3, (i == j) is True, not i, bool(j)


def logic(i, s, p):
    a = i or s
    b = p and i
    c = s and p and 'yes'
    return a, b, c, (p or s) if i > 2 else (s and i)


def strings(s, t):
    r = s + ':' + t
    return r, len(r), r == t, s in r, s != t, r.startswith(s), \
        r.endswith('x'), s[:1], s[1:], s[-1:]


def formatting(s, i):
    return '<%s>' % s, f'a{s}b', '%s=%s' % (s, 'k'), str(i == 2), str(s)


def finding(s, t):
    i = s.find(t)
    if i < 0:
        return None
    return s[:i], s[i + len(t):]


def stripping(s):
    if not s.strip():
        return 'blank'
    return s.replace('a', 'bb')


def lists(i, s, p):
    a = [i, s]
    b = a
    b.append(p)
    c = a[:]
    c.append(4)
    return a, b is a, c, len(a), a[-1], c[0], s in a[:0]


def list_ops(i, p):
    a = [1, 2, 3]
    if p:
        a.pop()
    a.extend([i, 5])
    a += [6]
    x = a.pop(0)
    a[0] = x
    return a, a[1:], a[:-1], a[-2], list(reversed(a)), a + [9]


def out_of_range(i, p):
    a = [1, 2]
    if p:
        a.pop()
    try:
        return a[1]
    except IndexError:
        return 'none'
    finally:
        a.append(i)


def dicts(s, i, p):
    d = {'a': 1, s: i}
    d['b'] = 2
    if p:
        d['a'] = 3
    e = dict(d)
    e['c'] = 4
    return d['a'], d.get('b'), d.get('zz', 9), 'b' in d, s in d, 'c' in d, \
        len(e) - len(d)


def dict_delete(s, p):
    d = {'x': 1, 'y': 2}
    if p:
        del d['x']
    try:
        d.pop('x')
    except KeyError:
        return 'gone', sorted(d.items())
    return 'popped', sorted(d.items())


def loops(i, j):
    n = 0
    out = []
    for k in [i, j, 3, i]:
        if k == 3:
            continue
        if k > 5:
            break
        n += k
        out.append(k)
    else:
        out.append('all')
    return n, out


def while_loop(i):
    n = 0
    while n < 4:
        n += 1
        if n == i:
            break
    else:
        return 'end'
    return n


def nested(i, j):
    res = []
    for a, b in enumerate([i, j]):
        for c in range(2):
            if b == c:
                break
            res.append((a, b, c))
    return res


def comprehension(i, s, p):
    xs = [i, 1, 2]
    return [x + 1 for x in xs if x != 2], \
        [c for c in ('u', s) if c], tuple(x for x in xs)


def raising(i):
    if i == 0:
        raise ValueError('zero')
    if i == 1:
        raise Odder('odd')
    if i == 2:
        raise KeyError(i)
    return i


def catching(i):
    log = []
    try:
        log.append('in')
        v = raising(i)
        log.append('ok')
    except Odd as e:
        log.append(('odd', e.b))
        v = -1
    except (ValueError, TypeError):
        log.append('value')
        v = -2
    else:
        log.append('else')
    finally:
        log.append('finally')
    return v, log


def finally_returns(i, p):
    log = []

    def inner():
        try:
            if p:
                return 'early'
            raising(i)
        finally:
            log.append('done')
        return 'late'
    try:
        r = inner()
    except Exception:
        r = 'failed'
    return r, log


def reraise(i):
    try:
        raising(i)
    except Odd:
        raise
    except Exception:
        raise RuntimeError('other')
    return 'fine'


def bare(i):
    done = []
    try:
        try:
            raising(i)
        except:  # noqa: E722
            done.append(1)
            raise
    except BaseException as e:
        done.append(type(e).__name__)
    return done


def objects(i, p):
    b = Box(i)
    c = b
    if p:
        c.add('x')
    d = Sub(1, b.more)
    d.add(i)
    return b.value, b.more, d.value, b.size, c is b, b.more is d.more, \
        Box.limit, b.limit, Box.twice(i), isinstance(d, Box), type(d) is Box


def attributes(i, p):
    b = Box(i)
    if p:
        b.extra = 1
    b.limit = 5
    return hasattr(b, 'extra'), getattr(b, 'extra', None), b.limit, Box.limit


def defaults(i, j=4, *rest, **kw):
    return i, j, rest, sorted(kw)


def calling(i, s):
    f = defaults
    args = (i, 2, 3)
    return f(i), f(*args), f(i, x=1), f(j=s, i=1), f(1, 2, *[i], z=3)


def closures(i, j):
    def add(x, y=j):
        return x + y + i
    i = i + 1
    g = lambda x: add(x, 1)  # noqa: E731
    return add(1), g(2)


def unpacking(i, s):
    (a, b), c = (i, s), 3
    x, *rest = [a, b, c]
    a, b = b, a
    return a, b, x, rest


def tuples(i, s):
    t = (i, s, 'z')
    return t[0], t[1:], t + (1,), len(t), t == (1, 'a', 'z'), 'z' in t, \
        (i, s) == (s, i)


def identity(i, s, p):
    x = None if p else s
    y = [] if p else None
    return x is None, y is not None, x == s, [x] == [s], (x, 1) == (None, 1)


def ternary(i, s, p):
    v = s if p else i
    w = v if i == 1 else [v]
    if w == s:
        return 'same', v
    return 'other', w


def aliasing(i, p):
    a = [1]
    b = [2]
    c = a if p else b
    c.append(i)
    c[0] = 9
    return a, b


def dict_alias(s, p):
    a = {'k': 1}
    b = {'k': 2}
    c = a if p else b
    c['k'] = s
    c['n'] = 1
    return a['k'], b['k'], 'n' in a, 'n' in b


def object_alias(i, p):
    a = Box(1)
    b = Box(2)
    c = a if p else b
    c.value = i
    c.more.append(3)
    return a.value, b.value, a.more, b.more


def early(i, p, q):
    out = []
    if p:
        out.append('p')
        if q:
            return out
        out.append('not q')
    elif q:
        out.append('q')
        if i == 1:
            raise Odd(i)
    out.append(i)
    return out


def assertion(i):
    assert i != 3, 'three'
    return i


def mixed(i, s, p):
    cur = {'x': [], 'y': [s]}
    key = 'x' if p else 'y'
    cur[key].append(i)
    for k in sorted(cur):
        cur[k].append(k)
    return cur['x'], cur['y'], len(cur['y'])


def join(s, t, p):
    parts = [s]
    if p:
        parts.append(t)
    return ''.join(parts), ','.join([s, 'm', t])


def walrus(i):
    if (n := i + 1) > 2:
        return n
    return -n


def minmax(i, j):
    return max(i, j), min(i, j, 2)


def any_all(i, s):
    return any([i, s]), all([i, s]), any(x == i for x in (1, 2))


def zipping(i, s):
    return list(zip([i, 2], ['a', s])), dict(zip(['k'], [i]))


def setdefault(s, p):
    d = {}
    if p:
        d['k'] = 'old'
    v = d.setdefault('k', s)
    return v, d['k']


def update(s, p):
    d = {'k': 1}
    if p:
        d.update({'k': s, 'm': 2})
    return d.get('k'), d.get('m')


def delete_slice(i, p):
    a = [0, 1, 2, 3]
    if p:
        del a[1:]
    else:
        del a[-1]
    a.append(i)
    return a


def slice_assign(i):
    a = [0, 1, 2]
    a[:] = [i]
    return a


def loop_returns(i, j, p):
    seen = []
    for k in [i, 2, j]:
        seen.append(k)
        if k == 2 and p:
            return 'found', seen
        if k == 3:
            raise Odd(k)
        seen.append('after')
    return 'none', seen


def loop_guarded_list(i, p, q):
    todo = [1]
    if p:
        todo.append(i)
    if q:
        todo.append(3)
    out = []
    for x in todo:
        if x == 3:
            break
        if x == 2:
            continue
        out.append(x)
    else:
        out.append('no break')
    return out


def loop_nested_break(i, j, p):
    out = []
    for a in (1, 2):
        for b in (i, j):
            if a == b:
                if p:
                    break
                continue
            out.append((a, b))
        else:
            out.append('inner')
            continue
        out.append('broken')
        if j == 2:
            break
    else:
        out.append('outer')
    return out


def loop_variable(i, j):
    last = None
    for x in (i, j):
        if x == 1:
            last = x
            break
        last = -x
    return last, x


def forever(i, p):
    n = 0
    while True:
        n += 1
        if n == i:
            return 'i', n
        if p and n == 2:
            break
        if n > 4:
            break
    return 'b', n


def guarded_pop(i, p, q):
    a = ['x']
    if p:
        a.append(i)
    b = 'none'
    if q:
        b = a.pop()
    a.append('y')
    return a, b


def empty_pop(i, p):
    a = []
    if p:
        a.append(i)
    x = a.pop()
    return x, a


def inner_return(i, p):
    def f(x):
        if x == 1:
            return 'one'
        if p:
            if x == 2:
                return 'two'
            return 'p'
    out = [f(i)]
    out.append(f(2))
    return out


def inner_effects(i, p):
    log = []

    def f(x):
        log.append(x)
        if x == 1:
            return
        log.append('more')
        if x == 2 and p:
            raise Odd(x)
        log.append('end')
    f(i)
    f(2)
    return log


def partial_raise(i, p):
    log = []
    if p:
        log.append('p')
        if i == 1:
            raise KeyError(i)
        log.append('q')
    if i == 2:
        raise ValueError(i)
    return log


def nested_fields(i, p, q):
    b = Box(0)
    if p:
        b.value = 1
        if q:
            return b.value, b.more
        b.more = [i]
    if i == 1:
        b.more.append('one')
    b.value += 5
    return b.value, b.more


def class_fields(i, p):
    b = Box(i)
    if p:
        b.limit = i
    return b.limit, Box.limit


def dict_order(i, p, q):
    d = {}
    if p:
        d['a'] = 1
    d['b'] = i
    d['a'] = 2
    if q:
        del d['b']
        d['b'] = 4
    return list(d.items()), list(d)


def dict_same_keys(s, t, p):
    d = {}
    d[s] = 1
    d[t] = 2
    if p:
        d['a'] = 3
    return list(d.items()), d[s], len(d)


def dict_symbolic_delete(s, t):
    d = {'a': 1, s: 2}
    if t in d:
        del d[t]
    return list(d.items())


def dict_get_missing(s, p):
    d = {'a': 1}
    if p:
        d[s] = 2
    return d['b']


def dict_update_same(s, p):
    d = {'a': 1, 'b': 2}
    e = {s: 5}
    if p:
        d.update(e)
    return list(d.items())


def augmented(i, s, p):
    a = [1]
    b = a
    a += [i]
    if p:
        a = a + [2]
    n = i
    n += 2
    t = s
    t += 'k'
    return a, b, n, t


def conditional_value(i, s, p, q):
    x = i
    if p:
        x = s
        if q:
            x = None
    y = x or 'none'
    z = x is None and 'n' or 'm'
    return x, y, z


def deep_alias(i, p, q):
    a, b = [1], [2]
    d = {'l': a if p else b}
    if q:
        d['l'].append(i)
    e = d['l']
    e.append('e')
    return a, b, d['l']


def tuple_union(i, p):
    t = (1, i) if p else (i, 2)
    a, b = t
    return b, a, t[0], t == (1, 2), len(t)


def shadow(i, p):
    def i2():
        return i + n
    n = 1
    if p:
        n = 2
    return i2()


def default_then_change(i):
    n = i

    def f(x=n):
        return x
    n = 5
    return f(), f(n)


def mutable_argument(i, p):
    def add(x, to):
        if p:
            to.append(x)
            return True
        return False
    a = []
    r = add(i, a) or add(1, a)
    return a, r


def short_circuit(i, p):
    log = []

    def f(x):
        log.append(x)
        return x
    r = f(p) and f(i) or f('last')
    return r, log


def chained_effects(i, j):
    log = []

    def f(x):
        log.append(x)
        return x
    r = f(i) < f(j) < f(3)
    return r, log


def stop_in_try(i):
    out = []
    for x in (i, 1, 2):
        try:
            if x == 1:
                continue
            if x == 3:
                break
            out.append(x)
        finally:
            out.append('f')
    return out


def compare_mixed(i, s, p):
    x = i if p else s
    return x == 1, x == 'a', x != s, x in (1, 'a'), x in [i]


def list_equal(i, j, p):
    a = [i]
    b = [j]
    if p:
        b.append(1)
    return len(a) == len(b), a is b


def str_checks(s, t):
    return s + t == t + s, s.lower() == s, s[0:1] == t[0:1], bool(s), \
        not s and t


def index_string(s, i):
    return s[i]


def index_list(i):
    return [1, 'b', None][i]


def index_tuple(i, s):
    return (i, s)[i]


def assign_item(i, s):
    a = [1, 2]
    a[i] = s
    return a


def contains_text(s, t):
    return 'a' in s, t in s, s not in ('a', 'b'), s in {'a': 1}


def split_join(s):
    parts = s.split('a')
    return 'b'.join(parts), len(parts)


def partition(s):
    a, b, c = s.partition('a')
    return a, b, c


def isinstance_checks(i, s, p):
    x = i if p else s
    if isinstance(x, str):
        return 'str', x
    return isinstance(x, int), isinstance(x, (list, str)), x


def comp_guarded(i, p, q):
    xs = [i]
    if p:
        xs.append(2)
    return [x for x in xs if x != 1], [x if q else -x for x in xs]


def insert_delete(i, p):
    a = [1, 2]
    if p:
        a.insert(0, i)
    else:
        del a[0]
    return a


def super_call(i):
    class_ = Sub(i)
    class_.add(2)
    return class_.value, class_.more
