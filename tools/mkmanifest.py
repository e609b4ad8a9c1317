#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = "contract-based deductive verification of the functions in /repo"
SMT = "own VC generator for Python, z3 with cvc5 as fallback"
FST = ", finite-state transducers and automata"
COMMON = (" Contracts are composed by induction over the nesting of elements"
          " and programs; that step is argued in DESIGN.md, not machine"
          " checked. Whole templates are compared with a reference semantics"
          " as a bounded stand-in and counted separately.")

#: property: (uses the automata back end, what is proved and what is not)
NOTES = {
    "C01": (1, "Proved for all values: the text writers (every string, by"
            " transducers), the handlers of inserted and translated text and"
            " how an element's content directive is compiled. Assumed: the"
            " expression engine answers with None, default or a string."),
    "C02": (1, "Proved for all values: quoting (every string), the attribute"
            " action and the writers of start tags, the collection and"
            " merging of attribute directives."),
    "C03": (1, "Proved for every string: attrEscape, and that the compiler"
            " applies it to static values. Bounded: the way of a value from"
            " the parser to the output."),
    "C04": (1, "Proved: the error handler, and for every instruction handler"
            " what it leaves behind when it ends with an exception."),
    "C05": (1, "Proved: every handler and the compilation of an element are"
            " balanced in scopes and translation contexts, for all"
            " combinations of directives."),
    "C06": (0, "Proved: no handler changes the program, the macros or"
            " anything reachable from them."),
    "C07": (1, "Proved: the handlers of condition, repeat and omit-tag and"
            " the instructions an element compiles to. Repetition by a loop"
            " invariant."),
    "C08": (1, "Proved by loop invariants: optimize, optimizeStartTag,"
            " optimizeCommonTriple and the functions taking emitted white"
            " space back."),
    "C09": (1, "Proved: definition and filling of slots, the entry made for"
            " a macro use, restoration of the macro nesting by every"
            " handler."),
    "C10": (1, "Proved: the handlers of macros including version, document"
            " type and nesting limit, restoration by every handler on normal"
            " and exceptional ends. Assumed: the limit is smaller than"
            " Python's recursion limit allows."),
    "C11": (1, "Proved: an element is rejected if it has one of the listed"
            " faults and accepted otherwise, for all combinations of"
            " directives; the patterns in the source accept the languages of"
            " the contract. Bounded: acceptance of whole documents."),
    "C12": (1, "Proved: the handlers inserting structure, the generator used"
            " for inserted structure, the document type is unchanged by"
            " every handler. Bounded: the markup parsers on inserted values."),
    "C13": (1, "Proved: the parser's handlers over an arbitrary stack of"
            " open elements, by loop invariants. Assumed: html.parser."),
    "C14": (1, "Proved: name and attribute handling of both parsers over"
            " arbitrary bindings. Assumed: html.parser and expat."),
    "C15": (1, "Proved for every string without NUL: splitting (transducer"
            " equivalence), the parts of definitions and attributes."),
    "C16": (1, "Proved: the handlers of translation units, names and"
            " contexts, what every handler leaves behind, and the contexts"
            " an element compiles to. White space normalisation by automata."),
    "C17": (1, "Proved: what the engine has been told after every handler"
            " and where an element's position is emitted."),
    "C18": (0, "Proved: the annotating writer and the annotation's format."
            " Bounded: exact places over whole renderings."),
    "C19": (0, "Proved: the handlers used with TAL or METAL processing off."
            " Bounded: debug output."),
    "C20": (0, "Proved: the writer of start tags by a loop invariant over"
            " the tokens of the tag, for every width and column."),
    "C21": (0, "Proved: the catalog update and what is forwarded to it."
            " Bounded: extraction from whole templates."),
    "C22": (1, "Proved: the order and nesting of the instructions of an"
            " element for all combinations of directives, and the handlers"
            " they run."),
}

checks = []
for pid, (automata, note) in sorted(NOTES.items()):
    checks.append(dict(
        property=pid,
        quick_cmd="%s checks/run.py %s" % (PY, pid),
        thorough_cmd="env VERIF_TIER=thorough %s checks/run.py %s" % (PY, pid),
        evidence_file="evidence/%s.json" % pid,
        technique="%s (%s%s)" % (T, SMT, FST if automata else ""),
        level="proof", level_note=note + COMMON))
m = dict(version=1, setup_cmd="%s -m compileall -q pyvc checks" % PY,
         checks=checks, not_applicable=[],
         notes="Every check reads the source of the functions in /repo's"
               " working tree on every run; no hooks in /repo are needed. A"
               " run in which some obligation is left undecided reports level"
               " exploration in its evidence file.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
