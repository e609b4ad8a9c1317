"""Structure of compiled programs."""


def is_program(x):
    return isinstance(x, (list, tuple)) and all(
        isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], str)
        for i in x) and len(x) > 0 and isinstance(x, list)


def subprograms(x):
    """Programs found directly inside the argument of an instruction."""
    if isinstance(x, list):
        if is_program(x):
            yield x
        else:
            for i in x:
                yield from subprograms(i)
    elif isinstance(x, tuple):
        for i in x:
            yield from subprograms(i)
    elif isinstance(x, dict):
        for i in x.values():
            yield from subprograms(i)


OPEN = {'beginScope': 's', 'beginI18nContext': 'c'}
CLOSE = {'endScope': 's', 'endI18nContext': 'c'}


def unbalanced(block):
    """How the block breaks last-in-first-out closing, or None."""
    stack = []
    for op, arg in block:
        if op == 'rawtextBeginScope':
            if arg[3]:
                if not stack or stack[-1] != 's':
                    return 'closes a scope it did not open: %r' % (op,)
                stack.pop()
            stack.append('s')
        elif op in OPEN:
            stack.append(OPEN[op])
        elif op in CLOSE:
            if not stack or stack[-1] != CLOSE[op]:
                return '%s does not close what was opened last' % op
            stack.pop()
    if stack:
        return 'leaves %d scopes or contexts open' % len(stack)
    return None


def all_blocks(program, seen=None):
    seen = set() if seen is None else seen
    todo = [program]
    while todo:
        p = todo.pop()
        if id(p) in seen:
            continue
        seen.add(id(p))
        yield p
        for op, arg in p:
            todo.extend(subprograms(arg))


def check_program(program, macros):
    for block in all_blocks(program):
        why = unbalanced(block)
        if why:
            return why, block
    for name in macros:
        for block in all_blocks(macros[name]):
            why = unbalanced(block)
            if why:
                return why, block
    return None
