#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
TI='src/zope/tal/talinterpreter.py'; TG='src/zope/tal/talgenerator.py'; TD='src/zope/tal/taldefs.py'
HP='src/zope/tal/htmltalparser.py'; XP='src/zope/tal/talparser.py'; TX='src/zope/tal/translationcontext.py'; GT='src/zope/tal/talgettext.py'; XB='src/zope/tal/xmlparser.py'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=None)))

p('C01','Inserted text can never become markup',
 "Whatever value a tal:content or tal:replace expression yields in text mode (with or without i18n:translate), what is written for it contains no raw '<' or '>' and no '&' other than those starting '&amp;', '&lt;' or '&gt;', and undoing exactly these three escapes gives back the (translated) text. A value of nothing writes nothing, and a value of default renders the element's own content unchanged.",
 ['inputs','configurations'],"every text value, every message object, HTML and XML mode, every surrounding template",
 "Tests insert a handful of literal strings; the guarantee is over all strings and all kinds of value.",
 [TI],[('text escaping','TALInterpreter._writeText'),('text insertion','TALInterpreter.do_insertText_tal, do_insertI18nText_tal')],observe=['rendered output'])
p('C02','Dynamic attribute values are always quoted, escaped and complete',
 "For every attribute controlled by tal:attributes or i18n:attributes, the start tag carries name=\"V\" exactly once (unless the template itself repeats that attribute), where V has no raw '\"', '<' or '>' and no '&' other than those starting an escape, and undoing the escapes gives back exactly the value (translated when asked). The attribute is left out exactly when its value is nothing (for an HTML boolean attribute: false), a true HTML boolean attribute is written name=\"name\", and a value of default keeps the template's static attribute, or none if there is none.",
 ['inputs','configurations'],"every attribute name and value, HTML boolean attributes or not, static attribute present or absent, any mix of directives",
 "Tests cover a few attribute names and tame values; combinations of default/nothing/boolean/translated with arbitrary text are not sampled.",
 [TI,TD,TG],[('attribute rendering','TALInterpreter.attrAction_tal, attrAction, do_startTag'),('quoting','taldefs.quote'),('attribute merging','TALGenerator.replaceAttrs')],observe=['rendered output'])
p('C03','Static attribute values keep their meaning and stay well-formed',
 "A static attribute value that is copied to the output never contains a raw '<', '>' or '\"', and every '&' in it begins a syntactically valid character or entity reference. Values that are already in that form are copied unchanged, and decoding the basic entities of the written value yields the same text as decoding those of the original value.",
 ['inputs'],"every string as attribute value",
 "The escaping is five chained regular-expression rewrites with look-ahead; tests try about ten strings.",
 [TD,TG],[('escaping','taldefs.attrEscape'),('use in start tags','TALGenerator.optimizeStartTag')],observe=['rendered output'])
p('C04','A failure under tal:on-error is completely contained',
 "When a part of a template protected by tal:on-error raises any exception at any point, none of the output produced inside that part appears, the replacement is rendered exactly once in its place with 'error' describing the exception, and everything that follows renders as if the protected part had not been entered: local variable scopes, translation domain and units, macro and slot nesting, output target and reported source file are those in force before it. When nothing fails, the output is the same as without tal:on-error.",
 ['inputs','fault_sequences','programs'],"every exception at every evaluation point, in every nesting of elements, macros, slots and translation units",
 "Tests raise one error at one place; the guarantee is about every point of failure and every kind of state that was open there.",
 [TI],[('error handling','TALInterpreter.do_onError_tal'),('state saving','TALInterpreter.saveState, restoreState, restoreOutputState'),('cleanup in nested constructs','TALInterpreter.do_useMacro, do_defineSlot, do_insertTranslation, do_i18nVariable')],
 state=[('scopeLevel','open engine scopes','TALInterpreter'),('macroStack','active macros','TALInterpreter'),('i18nStack','open translation units','TALInterpreter')],observe=['rendered output','engine scope depth'])
p('C05','Scopes and translation contexts are balanced in every rendering',
 "For every template the compiler accepts, every block of the compiled program closes exactly the variable scopes and translation contexts it opens, in last-in-first-out order. Hence a rendering that ends normally has made exactly as many end-of-scope as begin-of-scope calls on the engine, never more at any moment, an element's local definitions end with the element, and rendering ends in the outermost translation context.",
 ['programs','inputs','configurations'],"every accepted template (any combination and nesting of directives), every outcome of conditions and loops",
 "There are millions of directive combinations on one element alone; tests compile a few dozen.",
 [TG,TI],[('emission of scope instructions','TALGenerator.emitStartElement, emitEndElement, pushProgram, popProgram'),('scope moving in the optimizer','TALGenerator.optimize, optimizeCommonTriple'),('execution','TALInterpreter.interpret and the scope handlers')],observe=['engine.beginScope/endScope calls','compiled program'])
p('C06','Rendering never modifies the compiled template',
 "Rendering a compiled program, successfully or not, leaves the program and its macros exactly as they were. Rendering the same program any number of times, or the same block repeatedly in one rendering, therefore gives the same result whenever the expressions give the same values.",
 ['histories','programs','inputs'],"every program, every sequence of renderings and loop iterations",
 "Tests render each compiled program once.",
 [TI,TG],[('all instruction handlers','TALInterpreter.do_*'),('structure insertion','TALInterpreter.insertHTMLStructure, insertXMLStructure, AltTALGenerator.replaceAttrs')],observe=['compiled program before and after','output of repeated renderings'])
p('C07','Directives render exactly the parts their values select',
 "A block under tal:condition is rendered if and only if the condition evaluates true, exactly once, and nothing inside it is evaluated otherwise; a tal:repeat block is rendered exactly once for each item the iterator delivers, in order. tal:omit-tag drops both start and end tag when its expression is true or empty and neither otherwise, and never affects how often the content is rendered.",
 ['inputs','programs'],"every value of every expression, every iterator length, every nesting",
 "Tests use one or two literal conditions and three-item sequences.",
 [TI,TG],[('conditions and loops','TALInterpreter.do_condition, do_loop_tal'),('optional tags','TALInterpreter.do_optTag_tal, do_optTag, no_tag'),('insertion of nothing/default','TALInterpreter.do_insertText_tal, do_insertStructure_tal')],observe=['rendered output','engine calls'])
p('C08','Optimisation of compiled code preserves its meaning',
 "For every generated instruction sequence, the optimised sequence contains the same text in the same order around the same instructions, with no instruction lost, duplicated or reordered relative to other instructions. Opening or closing a variable scope may move relative to literal text and position marks, but never relative to each other or to other instructions, and only pure text may be merged; column information attached to merged text is that of the text.",
 ['programs','inputs'],"every instruction sequence the generator can produce",
 "Tests compare a few compiled programs literally.",
 [TG],[('optimizer','TALGenerator.optimize, optimizeStartTag, optimizeArgsList, optimizeCommonTriple')],observe=['compiled program','rendered output'])
p('C09','Each slot is filled by the filler that belongs to it',
 "When a macro's slot is rendered during a macro use, the content used is the filler with the slot's name given by the use of that macro, or else by the nearest macro along its chain of extensions that provides one, and the slot's own default content if none of them does; fillers given to unrelated uses further out are never taken. The filler is rendered with macro nesting as at the place that supplied it, and afterwards, also after an error, macro nesting is again as before the slot.",
 ['programs','histories','fault_sequences'],"every nesting and extension chain of macros, every set of fillers, errors inside fillers",
 "Tests have two-level examples; the selection depends on the whole stack of active macros.",
 [TI],[('slot lookup','TALInterpreter.do_defineSlot'),('macro stack','TALInterpreter.pushMacro, popMacro, do_useMacro, do_extendMacro')],state=[('macroStack','active macros, innermost last','TALInterpreter')],observe=['rendered output'])
p('C10','Macro use is guarded and leaves no trace',
 "Using a macro that was compiled for another language version or for the other document type fails with a METAL error before anything of it is rendered, and nesting deeper than the configured limit fails with a METAL error instead of exhausting the process. After a macro use, whether it ended normally or with an error, macro nesting and the extend/use status are as before, and after a normal end the variable macroname again has its outer value.",
 ['programs','histories','fault_sequences'],"every macro value, every nesting depth and limit, errors at any point in a macro",
 "Tests try one wrong version and one wrong mode; no test reaches the nesting limit or fails inside a macro and continues.",
 [TI,TD],[('checks','TALInterpreter.do_useMacro, pushMacro'),('program header','taldefs.getProgramVersion, getProgramMode, isCurrentVersion')],observe=['exceptions','rendered output','engine.setLocal calls'])
p('C11','Ill-formed directive use is rejected at compile time',
 "Compilation fails with a TAL, METAL or I18N error whenever an element has an unknown directive, a directive without its required value, two directives that exclude each other (content with replace, explicit message id with content, extend-macro or define-macro with use-macro, slots with macros on one element, extend-macro without define-macro, an attribute given a value by tal:attributes and an explicit message id by i18n:attributes), or a misplaced one (fill-slot outside a macro use, define-slot outside a macro definition, i18n:name outside a translation unit, i18n:data without an explicit message id or with a structure, tal:content on a void HTML element), a directive given twice (HTML), duplicate macro or slot names, an invalid name, definition, repetition or attribute list, or an expression the expression compiler refuses. No element that is free of such faults is rejected for its directives (within a macro use, METAL directives outside a filler have no effect and are not judged).",
 ['inputs','programs'],"every set of directives on an element in every context",
 "Tests list about thirty bad templates; the rule is over all combinations and both directions.",
 [TG],[('validation','TALGenerator.emitStartElement, emitDefineMacro, emitDefineSlot, emitFillSlot, emitI18nVariable, emitDefines, emitRepeat')],observe=['exceptions from compilation'])
p('C12','Inserted structure is inert and inserted faithfully',
 "A structure value is inserted as it is when strict checking is off and no attributes are to be applied; otherwise it is parsed as markup of the document's own type, and if it is malformed nothing of it is written. TAL, METAL and I18N directives occurring inside an inserted value are never executed, attributes given by tal:attributes on the replaced element are applied to the first element of the inserted value only, and the document type of the rendering stays what it was.",
 ['inputs','programs','configurations'],"every inserted string, strict or lenient, HTML or XML",
 "Tests insert two or three harmless fragments.",
 [TI],[('structure insertion','TALInterpreter.do_insertStructure_tal, do_insertI18nStructure_tal, insertHTMLStructure, insertXMLStructure'),('neutralised generator','AltTALGenerator')],observe=['rendered output','engine calls'])
p('C13','HTML elements nest properly and are closed exactly once',
 "In every accepted HTML template each element is closed exactly once, in last-opened-first-closed order, either by its own end tag or implicitly by HTML's rules (void elements; paragraphs before headings, other paragraphs and blocks such as lists, tables and divisions; list items, definition terms, table rows and cells before the next one of their list or table; end of document), and an element carrying directives that take effect is never closed implicitly. An end tag that matches no open element, an end tag of a void element, or a paragraph, heading, list, table or similar block inside an open heading is rejected.",
 ['inputs','histories'],"every sequence of tags, text and end tags",
 "Tests have a dozen tag sequences; the stack discipline is over all sequences.",
 [HP],[('tag stack','HTMLTALParser.handle_starttag, handle_startendtag, handle_endtag, close_para_tags, close_enclosed_tags, implied_endtag, parseString')],state=[('tagstack','open elements','HTMLTALParser')],observe=['sequence of element start/end events','exceptions'])
p('C14','Directives are recognised by namespace and never leak',
 "An attribute or element is treated as TAL, METAL or I18N exactly when its prefix is bound, at that element, to the corresponding namespace (in HTML the prefixes tal, metal and i18n are bound from the start), and a binding made on an element ends with that element; an attribute without a prefix on an element of such a namespace counts as that namespace's directive. In normal rendering no directive attribute, directive element tag or declaration of a directive namespace appears in the output, all other attributes appear in their original order (in XML after the namespace declarations), and nothing else is removed.",
 ['inputs','programs'],"every arrangement of prefixes, rebindings and nesting in HTML and XML",
 "Tests use the conventional prefixes almost everywhere.",
 [HP,XP,TI],[('HTML','HTMLTALParser.scan_xmlns, pop_xmlns, fixname, process_ns'),('XML','TALParser.StartNamespaceDeclHandler, EndNamespaceDeclHandler, process_ns, xmlnsattrs, fixname'),('suppression','TALInterpreter.do_startTag, do_optTag')],state=[('nsdict/nsDict','prefix bindings','parsers')],observe=['rendered output'])
p('C15','Semicolon lists in directives are split exactly',
 "In tal:define and tal:attributes, text free of NUL characters is divided, reading left to right, at every single semicolon, while every doubled semicolon stands for one literal semicolon inside a part; only one empty part after a final semicolon is ignored. For every part the scope keyword, the name and the expression handed to the expression compiler are exactly those written, and an attribute named twice (in HTML regardless of case) is refused.",
 ['inputs'],"every directive text",
 "Tests try a few definitions with one doubled semicolon.",
 [TD,TG],[('splitting','taldefs.splitParts'),('part syntax','taldefs.parseAttributeReplacements, parseSubstitution, TALGenerator.emitDefines, emitRepeat')],observe=['expressions passed to the compiler','names defined'])
p('C16','Translation units are sent complete, once, in the right domain',
 "Each rendering of an element with i18n:translate asks the translation service exactly once, with the explicit message id or else the whitespace-normalised rendered content (verbatim in HTML pre) in which every i18n:name element is replaced by ${name}, with a mapping giving for each such name that element's rendered text (plus i18n:data), and with the domain of the nearest enclosing i18n:domain in its own template, or if there is none the domain in force where that template's part is rendered (the default domain if i18n:source or i18n:target is in force without any domain); the answer, and nothing else of the content, is written. Units may be nested without disturbing each other, also when an error inside one is handled.",
 ['programs','inputs','fault_sequences'],"every nesting of translation units, names, domains, and content",
 "Tests cover fixed one- and two-level examples.",
 [TI,TG,TX],[('units','TALInterpreter.do_insertTranslation, do_i18nVariable, translate, normalize'),('domains','TranslationContext, do_beginI18nContext, do_endI18nContext, TALGenerator.emitStartElement')],state=[('i18nStack','open units','TALInterpreter')],observe=['engine.translate calls','rendered output'])
p('C17','The engine always knows the right source file and element position',
 "For templates compiled with a source file name, before any expression of an element is evaluated on entering it (attributes applied to an inserted structure excepted), the engine has been told the source position of that element's start tag, and the source file it was last told is the file that element was written in, inside macros and slot fillers as well as after they end. After a handled error the file and position reported are those of the protected element again.",
 ['programs','histories'],"every arrangement of templates from different files using each other's macros and slots",
 "Tests check two arrangements.",
 [TG,TI],[('emission','TALGenerator.emitStartElement, emitEndElement'),('execution','TALInterpreter.do_setSourceFile, do_setPosition, do_useMacro, restoreState')],observe=['engine.setSourceFile/setPosition calls'])
p('C18','Source annotations only add comments',
 "With source annotations switched on, removing the annotation comments from the output yields exactly the output without annotations. No annotation is written before or inside an <?xml ...?> declaration (it then follows the declaration directly) or in front of output that is empty or consists only of white space, never more than one is written for one setting of the source file, and where no tal:on-error is involved each setting of the source file that is followed by other output is annotated once, directly before that output, with that file's name.",
 ['inputs','programs'],"every chunk of output text, every sequence of source file changes",
 "Tests check seven literal chunks and four files.",
 [TI],[('annotated writes','TALInterpreter._annotated_stream_write, do_setSourceFile, formatSourceAnnotation'),('stream switching','TALInterpreter.pushStream, popStream, restoreState, restoreOutputState')],state=[('_pending_source_annotation','annotation due','TALInterpreter')],observe=['rendered output'])
p('C19','Processing switches are honoured',
 "With TAL processing off, no define, condition, repeat, content, replace, attributes, omit-tag or on-error expression is evaluated, every block is rendered exactly once with its own content, and the directive attributes are shown as written (those of METAL only with METAL processing off too); with METAL processing off, no macro is looked up, and macro uses and slots render their own content. Debug output goes to standard error only and never changes the rendered output.",
 ['configurations','programs'],"every combination of switches with every program",
 "Tests use a few switch settings on a few files.",
 [TI],[('dispatch','TALInterpreter.__init__, bytecode_handlers, bytecode_handlers_tal, interpret'),('METAL switch','TALInterpreter.do_useMacro, do_extendMacro, do_defineSlot, attrAction')],observe=['engine calls','rendered output'])
p('C20','Wrapping of long start tags is purely cosmetic',
 "For every wrap width the start tag differs from the unwrapped one only in that a single space before an attribute may become a line break followed by spaces. Attribute names, values, order and number are the same for every width, and a width of 0 never breaks lines.",
 ['inputs','configurations'],"every tag, attribute list, column and wrap width",
 "One test wraps one tag at one width.",
 [TI],[('start tags','TALInterpreter.do_startTag'),('column tracking','TALInterpreter.stream_write, do_rawtextColumn, do_rawtextOffset')],observe=['rendered output'])
p('C21','Message extraction records every message and never loses one',
 "Extraction records every message sent for translation under its domain, with its id, its default text (none if equal to the id) and the file and position reported for each occurrence; an already recorded message, its default and its positions are never dropped or altered by later ones. A message found again with a different default, or with none, leads to a warning, never to a failure.",
 ['histories','inputs'],"every sequence of messages, domains, defaults and positions",
 "Tests record two messages.",
 [GT],[('catalog','POEngine.translate'),('interpreter','POTALInterpreter.translate')],state=[('catalog','domain to message to positions','POEngine')],observe=['catalog','warnings'])
p('C22','The directives of one element take effect in the documented order',
 "For every combination of directives on one element: error handling encloses everything else, then definitions are made in the order written, then the condition is tested, then repetition starts, and within each repetition omit-tag is evaluated before the attributes and these before the content; names defined earlier in this order are visible later. Each expression is evaluated exactly as often as the directives before it in this order make it, and the compiled form nests in this order for every combination.",
 ['programs','inputs'],"all combinations of directives on an element, including macros, slots and translation",
 "Over a million combinations on one element; tests sample a few.",
 [TG,TI],[('nesting of generated blocks','TALGenerator.emitStartElement, emitEndElement'),('execution','TALInterpreter handlers')],observe=['order of engine calls','compiled program'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
