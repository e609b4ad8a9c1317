"""Driving the real compiler and interpreter."""
import io

from zope.tal.talgenerator import TALGenerator
from zope.tal.talinterpreter import TALInterpreter


def render_elements(elements, xml=0, wrap=0):
    """elements: [(name, attrlist)] -> rendered text."""
    from zope.tal.dummyengine import DummyEngine
    gen = TALGenerator(DummyEngine(), xml)
    for name, attrs in elements:
        gen.emitStartElement(name, list(attrs), {}, {}, {})
    for name, attrs in reversed(elements):
        gen.emitRawText("") if xml else None
        gen.emitEndElement(name)
    program, macros = gen.getCode()
    out = io.StringIO()
    TALInterpreter(program, macros, DummyEngine(macros), out, wrap=wrap)()
    return out.getvalue()
