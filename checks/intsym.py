"""Symbolic states of the interpreter."""
from pyvc.core import HObj, Py, Unsupported


class TextSink:
    """Stands for self._stream_write: remembers what is written."""

    def __init__(self):
        self.parts = []

    def call_self(self, I, ref, args, kwargs):
        self.parts.append(args[0])
        return Py(None)


def written_text(I, fn, s):
    from zope.tal.talinterpreter import TALInterpreter
    sink = TextSink()
    w = I.alloc(HObj(None, {}, model=sink))
    self_ = I.new_obj(TALInterpreter, {'_stream_write': w,
                                       'col': I.fint('col')})
    I.call(Py(fn), [self_, s])
    if len(sink.parts) != 1:
        raise Unsupported('%d writes' % len(sink.parts))
    return sink.parts[0]
