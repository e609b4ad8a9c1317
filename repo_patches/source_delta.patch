From d93985c49194465eed1e2cc8bcafc504d7311104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 01/27] fix: do not consume tal:attributes of an inserted
 structure

Inserting a structure with attributes to apply deleted entries from a
dictionary that belongs to the compiled program.  The second rendering of
the same instruction no longer replaced those attributes.
---
 src/zope/tal/talgenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index e3d29bb..f6bf569 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -464,6 +464,8 @@ class TALGenerator:
         # (name, value, action, expr, xlat, msgid)
         if not repldict:
             return attrlist
+        # repldict may be part of a compiled program; leave it alone.
+        repldict = dict(repldict)
         newlist = []
         for item in attrlist:
             key = item[0]
-- 
2.43.0


From 055a3dcbb0c3a557052eb92b5724d353d5a9c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 02/27] fix: leave the macro stack clean when a macro fails

A macro that raised an error under tal:on-error stayed on the macro stack.
Later slots could be filled from it, and repeated failures ran into the
macro nesting limit.
---
 src/zope/tal/talinterpreter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 33187f8..6d54d01 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -884,8 +884,10 @@ class TALInterpreter:
         (macroName, macro) = stuff
         wasInUse = self.inUseDirective
         self.inUseDirective = False
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
     bytecode_handlers["defineMacro"] = do_defineMacro
 
     def do_useMacro(self, stuff,
@@ -916,13 +918,15 @@ class TALInterpreter:
         prev_source = self.sourceFile
         wasInUse = self.inUseDirective
         self.inUseDirective = True
-        self.interpret(macro)
-        self.inUseDirective = wasInUse
+        try:
+            self.interpret(macro)
+        finally:
+            self.inUseDirective = wasInUse
+            self.popMacro()
 
         if self.sourceFile != prev_source:
             self.engine.setSourceFile(prev_source)
             self.sourceFile = prev_source
-        self.popMacro()
         # Push the outer macroname again.
         self.engine.setLocal('macroname', outer)
     bytecode_handlers["useMacro"] = do_useMacro
-- 
2.43.0


From 8f001022b96463d8f1a83168ff64c6ad3563405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 03/27] fix: close a translation unit when its content fails

After an error inside i18n:translate was handled by tal:on-error, the failed
unit stayed open.  Names of the enclosing unit were then stored in the failed
one and missing from the mapping.
---
 src/zope/tal/talinterpreter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 6d54d01..36c2701 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -731,16 +731,15 @@ class TALInterpreter:
             self.interpret(stuff[1])
         finally:
             self.popStream()
+            self.i18nStack.pop()
         # We only care about the evaluated contents if we need an implicit
-        # message id.  All other useful information will be in the i18ndict on
-        # the top of the i18nStack.
+        # message id.  All other useful information will be in the i18ndict.
         default = tmpstream.getvalue()
         if not msgid:
             if self.html and currentTag == "pre":
                 msgid = default
             else:
                 msgid = normalize(default)
-        self.i18nStack.pop()
         # See if there is was an i18n:data for msgid
         if len(stuff) > 2:
             obj = self.engine.evaluate(stuff[2])
-- 
2.43.0


From e1a85a4fd1b47d0ddedf8918a3cce154a5ce27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:51 +0000
Subject: [PATCH 04/27] fix: report the right source file after a handled error

When a macro from another file failed under tal:on-error, the position was
restored but the source file stayed that of the macro.
---
 src/zope/tal/talinterpreter.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 36c2701..8f99917 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -238,11 +238,12 @@ class TALInterpreter:
 
     def saveState(self):
         return (self.position, self.col, self.stream, self._stream_stack,
-                self.scopeLevel, self.level, self.i18nContext)
+                self.scopeLevel, self.level, self.i18nContext,
+                self.sourceFile)
 
     def restoreState(self, state):
         (self.position, self.col, self.stream,
-         self._stream_stack, scopeLevel, level, i18n) = state
+         self._stream_stack, scopeLevel, level, i18n, sourceFile) = state
         if self._pending_source_annotation:
             self._stream_write = self._annotated_stream_write
         else:
@@ -251,12 +252,15 @@ class TALInterpreter:
         while self.scopeLevel > scopeLevel:
             self.engine.endScope()
             self.scopeLevel = self.scopeLevel - 1
+        if self.sourceFile != sourceFile:
+            self.engine.setSourceFile(sourceFile)
+            self.sourceFile = sourceFile
         self.engine.setPosition(self.position)
         self.i18nContext = i18n
 
     def restoreOutputState(self, state):
         (dummy, self.col, self.stream,
-         self._stream_stack, scopeLevel, level, i18n) = state
+         self._stream_stack, scopeLevel, level, i18n, sourceFile) = state
         if self._pending_source_annotation:
             self._stream_write = self._annotated_stream_write
         else:
-- 
2.43.0


From e1b23c330e252218171b8476d550daee466a0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:04 +0000
Subject: [PATCH 05/27] fix: keep XML mode when inserting a structure

Structures inserted into an XML document were compiled as HTML.  Executing
them switched the rest of the rendering to HTML mode, and later macro uses
failed with an incompatible mode.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 8f99917..1b62a91 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -812,7 +812,7 @@ class TALInterpreter:
 
     def insertXMLStructure(self, text, repldict):
         from zope.tal.talparser import TALParser
-        gen = AltTALGenerator(repldict, self.engine, 0)
+        gen = AltTALGenerator(repldict, self.engine, 1)
         p = TALParser(gen)
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
-- 
2.43.0


From 9f9ef877cad85d3137156269856f179714e7a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:06 +0000
Subject: [PATCH 06/27] fix: render an empty XML element in a directive
 namespace

The start tag of an empty <tal:x/> without attributes was already turned into
text when it was minimized.  The result was an invalid instruction.
---
 src/zope/tal/talgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index f6bf569..446863d 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -256,7 +256,8 @@ class TALGenerator:
     def emitOptTag(self, name, optTag, isend):
         program = self.popProgram()  # block
         start = self.popProgram()  # start tag
-        if (isend or not program) and self.xml:
+        if ((isend or not program) and self.xml
+                and start[-1][0] == "startTag"):
             # Minimize empty element
             start[-1] = ("startEndTag",) + start[-1][1:]
             isend = 1
-- 
2.43.0


From a943de8382b4a513e22bf6536c2b59c81914534b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:07 +0000
Subject: [PATCH 07/27] fix: accept a script element whose type attribute has
 no value

<script type> made the HTML parser fail with an AttributeError.
---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 1dd632a..7861d8b 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -194,7 +194,8 @@ class HTMLTALParser(HTMLParser):
         # Support for inline Python code.
         if tag == 'script':
             type_attr = [a for a in attrlist if a[0] == "type"]
-            if type_attr and type_attr[0][1].startswith('text/server-'):
+            if (type_attr and type_attr[0][1]
+                    and type_attr[0][1].startswith('text/server-')):
                 attrlist.remove(type_attr[0])
                 taldict = {'script': type_attr[0][1], 'omit-tag': ''}
         self.tagstack.append(tag)
-- 
2.43.0


From c340f79b7a0ed2aa53aa04d003b87ad23c27d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:09 +0000
Subject: [PATCH 08/27] fix: render i18n:attributes of attributes without a
 value

Naming an HTML boolean attribute in i18n:attributes evaluated an expression
that does not exist.  Naming an attribute that is missing or has no value
asked for a translation of None.
---
 src/zope/tal/talinterpreter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 1b62a91..c165ed2 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -490,7 +490,10 @@ class TALInterpreter:
         name, value, action = item[:3]
         ok = 1
         expr, xlat, msgid = item[3:]
-        if self.html and name.lower() in BOOLEAN_HTML_ATTRS:
+        if expr is None:
+            if action == 'insert' and not msgid:  # Nothing to translate
+                ok = 0
+        elif self.html and name.lower() in BOOLEAN_HTML_ATTRS:
             evalue = self.engine.evaluateBoolean(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -499,7 +502,7 @@ class TALInterpreter:
                 value = None
             else:
                 ok = 0
-        elif expr is not None:
+        else:
             evalue = self.engine.evaluateText(item[3])
             if evalue is self.Default:
                 if action == 'insert':  # Cancelled insert
@@ -510,7 +513,7 @@ class TALInterpreter:
                 value = evalue
 
         if ok:
-            if xlat:
+            if xlat and (msgid or value is not None):
                 translated = self.translate(msgid or value, value)
                 if translated is not None:
                     value = translated
-- 
2.43.0


From d1e56e646d4e0b7a39eb9902fa6f2b6854dec4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:11 +0000
Subject: [PATCH 09/27] fix: escape a hexadecimal reference without digits

"&#x;" in a static attribute value was copied although it is not a valid
character reference.
---
 src/zope/tal/taldefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/taldefs.py b/src/zope/tal/taldefs.py
index 1a7331d..6447e73 100644
--- a/src/zope/tal/taldefs.py
+++ b/src/zope/tal/taldefs.py
@@ -208,7 +208,7 @@ def getProgramVersion(program):
 
 _ent1_re = re.compile('&(?![A-Z#])', re.I)
 _entch_re = re.compile('&([A-Z][A-Z0-9]*)(?![A-Z0-9;])', re.I)
-_entn1_re = re.compile('&#(?![0-9X])', re.I)
+_entn1_re = re.compile('&#(?![0-9]|X[0-9A-F])', re.I)
 _entnx_re = re.compile('&(#X[A-F0-9]*)(?![A-F0-9;])', re.I)
 _entnd_re = re.compile('&(#[0-9][0-9]*)(?![0-9;])')
 
-- 
2.43.0


From 24c76a3b4670ac61c4d2bca61491284225e3991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:12 +0000
Subject: [PATCH 10/27] fix: end the translation unit of an element with
 tal:content

After an element with both i18n:translate and tal:content, i18n:name was
accepted outside of any translation unit and failed when rendered.
---
 src/zope/tal/talgenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 446863d..095f3f0 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -793,6 +793,7 @@ class TALGenerator:
         # in case tal:content, i18n:translate and i18n:name in the same tag
         if not content and msgid is not None:
             self.emitTranslation(msgid, i18ndata)
+        if msgid is not None:
             self.i18nLevel -= 1
         if optTag:
             self.emitOptTag(name, optTag, isend)
-- 
2.43.0


From 0362f5c6d2512536a2bd21ead94c2447780f5bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:15 +0000
Subject: [PATCH 11/27] fix: render i18n:name in default content that is not
 translated

With tal:content and i18n:translate on one element, default content is
rendered without translation.  i18n:name in it failed with an IndexError.
---
 src/zope/tal/talinterpreter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index c165ed2..588eb7b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -707,9 +707,12 @@ class TALInterpreter:
 
         # Either the i18n:name tag is nested inside an i18n:translate in which
         # case the last item on the stack has the i18n dictionary and string
-        # representation, or the i18n:name and i18n:translate attributes are
-        # in the same tag, in which case the i18nStack will be empty.  In that
-        # case we can just output the ${name} to the stream
+        # representation, or it is in the default content of a tag with both
+        # tal:content and i18n:translate, which is not translated.  In that
+        # case we can just output the value to the stream
+        if not self.i18nStack:
+            self._stream_write(value)
+            return
         i18ndict, srepr = self.i18nStack[-1]
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
-- 
2.43.0


From 2d597c9c8a7378e058649bee42cbb1c55a62ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:17 +0000
Subject: [PATCH 12/27] fix: report i18n:data with a structure as an error

It failed with an AssertionError without a position.
---
 src/zope/tal/talgenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index 095f3f0..ed4f6a9 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -357,8 +357,10 @@ class TALGenerator:
             self.emit('insertTranslation', msgid, program)
         else:
             key, expr = parseSubstitution(i18ndata)
+            if key != 'text':
+                raise I18NError("i18n:data cannot be a structure",
+                                self.position)
             cexpr = self.compileExpression(expr)
-            assert key == 'text'
             self.emit('insertTranslation', msgid, program, cexpr)
 
     def emitDefineMacro(self, macroName):
-- 
2.43.0


From 4a52b5ce28a1f5e1416a411a071f30e50eae1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:51 +0000
Subject: [PATCH 13/27] fix: warn when only one of two equal message ids has a
 default

Extracting such messages failed with an AttributeError instead of giving the
warning about different defaults.
---
 src/zope/tal/talgettext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 08f621b..4e21ee4 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -123,8 +123,8 @@ class POEngine(DummyEngine):
                     (msgid.encode('utf-8'),
                      self.file.encode('utf-8') + b':'
                      + str(position).encode('utf-8'),
-                     msgid.default.encode('utf-8'),
-                     existing_msgid.default.encode('utf-8'),
+                     str(msgid.default).encode('utf-8'),
+                     str(existing_msgid.default).encode('utf-8'),
                      references.encode('utf-8')))
         domain[msgid].append((self.file, position))
         return 'x'
-- 
2.43.0


From a12455f535d43d52d87f2570900024426b7f4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:53 +0000
Subject: [PATCH 14/27] fix: extract messages that use i18n:data

The placeholder for the data was treated as a mapping, which failed with a
ValueError.
---
 src/zope/tal/talgettext.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zope/tal/talgettext.py b/src/zope/tal/talgettext.py
index 4e21ee4..4daad9a 100644
--- a/src/zope/tal/talgettext.py
+++ b/src/zope/tal/talgettext.py
@@ -57,8 +57,7 @@ class POTALInterpreter(TALInterpreter):
         # If no i18n dict exists yet, create one.
         if i18ndict is None:
             i18ndict = {}
-        if obj:
-            i18ndict.update(obj)
+        # The result of i18n:data is not known during extraction; ignore obj.
         # Mmmh, it seems that sometimes the msgid is None; is that really
         # possible?
         if msgid is None:
-- 
2.43.0


From eb0b21f52a317960f89d80d394ccfab890e2bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:54 +0000
Subject: [PATCH 15/27] fix: keep marked sections of HTML templates

Conditional comments such as <![if IE]> and CDATA sections were dropped from
the output.
---
 src/zope/tal/htmltalparser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 7861d8b..bf59007 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -298,6 +298,11 @@ class HTMLTALParser(HTMLParser):
     def handle_decl(self, data):
         self.gen.emitRawText("<!%s>" % data)
 
+    def unknown_decl(self, data):
+        # Marked sections: <![if ...]>, <![endif]> and <![CDATA[...]]>
+        close = "[" in data and "]]>" or "]>"
+        self.gen.emitRawText("<![" + data + close)
+
     def handle_pi(self, data):
         self.gen.emitRawText("<?%s>" % data)
 
-- 
2.43.0


From 08ba4fa161bffdeb81d879518690bacb2792c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:56 +0000
Subject: [PATCH 16/27] fix: honour tal:omit-tag and i18n:translate without a
 value

In HTML an attribute without a value is the same as one with an empty value.
These directives were ignored when written that way.
---
 src/zope/tal/htmltalparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index bf59007..d78a3b5 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -356,7 +356,7 @@ class HTMLTALParser(HTMLParser):
                 if keybase in taldict:
                     raise TALError("duplicate TAL attribute " +
                                    repr(keybase), self.getpos())
-                taldict[keybase] = value
+                taldict[keybase] = value or ""
             elif ns == 'metal':
                 if keybase in metaldict:
                     raise METALError("duplicate METAL attribute " +
@@ -366,7 +366,7 @@ class HTMLTALParser(HTMLParser):
                 if keybase in i18ndict:
                     raise I18NError("duplicate i18n attribute " +
                                     repr(keybase), self.getpos())
-                i18ndict[keybase] = value
+                i18ndict[keybase] = value or ""
             attrlist.append(item)
         if namens in ('metal', 'tal', 'i18n'):
             taldict['tal tag'] = namens
-- 
2.43.0


From 8cc6f946cc004c0c7a7529647a0675d7e6285dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:58 +0000
Subject: [PATCH 17/27] fix: keep source annotations out of message ids

With source annotations switched on, an annotation could end up in the text
captured for a translation or for code evaluation.
---
 src/zope/tal/talinterpreter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 588eb7b..51b3616 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -309,6 +309,11 @@ class TALInterpreter:
             self._stream_write = self.stream.write
 
     def _annotated_stream_write(self, s):
+        if self._stream_stack:
+            # Do not annotate text that is captured for further processing,
+            # such as message ids.
+            self.stream.write(s)
+            return
         idx = s.find('<?xml')
         if idx >= 0 or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
-- 
2.43.0


From 7a4c80538e16f5c10f545617f68fc65c3856e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:31 +0000
Subject: [PATCH 18/27] fix: keep the last characters of structure inserted
 into XML

Expat may hold back the end of the text it is given, for instance a final
']'.  These characters were delivered only after output had been switched
off again, and so were lost.
---
 src/zope/tal/talinterpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 51b3616..2b260d8 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -828,9 +828,10 @@ class TALInterpreter:
         gen.enable(0)
         p.parseFragment('<!DOCTYPE foo PUBLIC "foo" "bar"><foo>')
         gen.enable(1)
-        p.parseFragment(text)  # Raises an exception if text is invalid
-        gen.enable(0)
-        p.parseFragment('</foo>', 1)
+        # Raises an exception if text is invalid.  The end tag is passed along
+        # since the parser may hold back the last characters of the text.
+        p.parseFragment(text + '</foo>', 1)
+        gen.program.pop()  # the end tag
         program, macros = gen.getCode()
         self.interpret(program)
 
-- 
2.43.0


From b0ea9007a969c6b9c05994b19996914caec5e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:31 +0000
Subject: [PATCH 19/27] fix: keep the prefixes used in XML templates

A namespace bound to several prefixes had all its names written with the
prefix bound last, which could rename or duplicate attributes.
---
 src/zope/tal/talparser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index 38c740b..b8f2e82 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -41,6 +41,8 @@ class TALParser(XMLParser):
             code generator to use. If one is not given, a default will be used.
         """
         XMLParser.__init__(self, encoding)
+        # Report the prefixes used, a namespace may have more than one.
+        self.parser.namespace_prefixes = True
         if gen is None:
             gen = TALGenerator()
         self.gen = gen
@@ -124,11 +126,10 @@ class TALParser(XMLParser):
 
     def fixname(self, name):
         if ' ' in name:
-            uri, name = name.split(' ', 1)
-            prefix = self.nsDict[uri]
+            uri, name, *prefix = name.split(' ')
             prefixed = name
             if prefix:
-                prefixed = f"{prefix}:{name}"
+                prefixed = f"{prefix[0]}:{name}"
             ns = self._namespaces.get(uri, "x")
             return (prefixed, name, ns)
         return (name, name, None)
-- 
2.43.0


From 12c84cba35c1646386cf6f224f1cee518cc29e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:49 +0000
Subject: [PATCH 20/27] fix: keep the value of xmlns="" in XML templates

It was written without a value, which is not well-formed.
---
 src/zope/tal/talparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talparser.py b/src/zope/tal/talparser.py
index b8f2e82..bb5cd9b 100644
--- a/src/zope/tal/talparser.py
+++ b/src/zope/tal/talparser.py
@@ -57,7 +57,7 @@ class TALParser(XMLParser):
     def StartNamespaceDeclHandler(self, prefix, uri):
         self.nsStack.append(self.nsDict.copy())
         self.nsDict[uri] = prefix
-        self.nsNew.append((prefix, uri))
+        self.nsNew.append((prefix, uri or ""))
 
     def EndNamespaceDeclHandler(self, prefix):
         self.nsDict = self.nsStack.pop()
-- 
2.43.0


From 41e432747cb6e40db3940fd1eb6dcd2015891823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:02 +0000
Subject: [PATCH 21/27] fix: do not annotate empty output

With source annotations switched on, an empty piece of output in front of an
<?xml ?> declaration was annotated, so the comment came before the
declaration.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 2b260d8..42b95bf 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -315,7 +315,7 @@ class TALInterpreter:
             self.stream.write(s)
             return
         idx = s.find('<?xml')
-        if idx >= 0 or s.isspace():
+        if idx >= 0 or not s or s.isspace():
             # Do not preprend comments in front of the <?xml?> declaration.
             end_of_doctype = s.find('?>', idx)
             if end_of_doctype > idx:
-- 
2.43.0


From 7f07e14c09ef620c9958a71e36dc1a11806f350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:42 +0000
Subject: [PATCH 22/27] fix: honour an i18n:domain that names the default
 domain

i18n:domain="default" inside another domain was ignored, so the outer
domain was used for the messages in it.
---
 src/zope/tal/talgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talgenerator.py b/src/zope/tal/talgenerator.py
index ed4f6a9..de93da4 100644
--- a/src/zope/tal/talgenerator.py
+++ b/src/zope/tal/talgenerator.py
@@ -24,7 +24,6 @@ from zope.tal.taldefs import I18NError
 from zope.tal.taldefs import METALError
 from zope.tal.taldefs import TALError
 from zope.tal.taldefs import parseSubstitution
-from zope.tal.translationcontext import DEFAULT_DOMAIN
 from zope.tal.translationcontext import TranslationContext
 
 
@@ -632,7 +631,8 @@ class TALGenerator:
             domain = i18ndict.get("domain") or self.i18nContext.domain
             source = i18ndict.get("source") or self.i18nContext.source
             target = i18ndict.get("target") or self.i18nContext.target
-            if (domain != DEFAULT_DOMAIN
+            if (i18ndict.get("domain")
+                or self.i18nContext.parent is not None
                 or source is not None
                     or target is not None):
                 self.i18nContext = TranslationContext(self.i18nContext,
-- 
2.43.0


From 89df7851dd71ee46aabd6b6962b01b5883f044eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:08 +0000
Subject: [PATCH 23/27] fix: keep the other TAL directives of a script element
 with server-side code

---
 src/zope/tal/htmltalparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index d78a3b5..4c6baf7 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -197,7 +197,8 @@ class HTMLTALParser(HTMLParser):
             if (type_attr and type_attr[0][1]
                     and type_attr[0][1].startswith('text/server-')):
                 attrlist.remove(type_attr[0])
-                taldict = {'script': type_attr[0][1], 'omit-tag': ''}
+                taldict['script'] = type_attr[0][1]
+                taldict.setdefault('omit-tag', '')
         self.tagstack.append(tag)
         self.gen.emitStartElement(tag, attrlist, taldict, metaldict, i18ndict,
                                   self.getpos())
-- 
2.43.0


From e1aaf6bcddb46a15eadcfdeb3a43a6633a48f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:55 +0000
Subject: [PATCH 24/27] fix: leave prefixed attributes of directive elements in
 HTML alone

An attribute whose prefix is bound to no directive namespace, or that declares
another namespace, was taken for a directive when its element belongs to a
directive namespace, and the template was refused.
---
 src/zope/tal/htmltalparser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/zope/tal/htmltalparser.py b/src/zope/tal/htmltalparser.py
index 4c6baf7..6db9743 100644
--- a/src/zope/tal/htmltalparser.py
+++ b/src/zope/tal/htmltalparser.py
@@ -339,6 +339,7 @@ class HTMLTALParser(HTMLParser):
                 nsuri = self.nsdict.get(prefix)
                 if nsuri in self._namespaces:
                     return name, suffix, self._namespaces[nsuri]
+            return name, name, 'unknown'
         return name, name, 0
 
     def process_ns(self, name, attrs):
-- 
2.43.0


From 8f1a76c33cf5b7c306635e7df6786ff5053236f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:17:11 +0000
Subject: [PATCH 25/27] fix: render what is inserted into an empty element
 whose tag is kept

With tal:omit-tag on an element written as <span/> or on a void element, an
i18n:translate or tal:replace of that element was ignored unless the tag was
omitted.
---
 src/zope/tal/talinterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 42b95bf..0d5f499 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -547,8 +547,8 @@ class TALInterpreter:
             return self.no_tag(start, program)
 
         self.interpret(start)
+        self.interpret(program)
         if not isend:
-            self.interpret(program)
             s = '</%s>' % name
             self._stream_write(s)
             self.col = self.col + len(s)
-- 
2.43.0


From 9c058f71f3efcbe973092662f3be28ced221709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:09 +0000
Subject: [PATCH 26/27] fix: keep count of the output column in translations,
 code and start tags

The column after a translated text, evaluated code or a start tag with a line
break in a value was wrong, so that later start tags were wrapped at other
places than with tal:on-error around such a part.
---
 src/zope/tal/talinterpreter.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index 0d5f499..d694fbc 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -443,10 +443,8 @@ class TALInterpreter:
                         col = col + 1 + slen
                     append(s)
             append(end)
-            col = col + endlen
         finally:
-            self._stream_write(_nulljoin(L))
-            self.col = col
+            self.stream_write(_nulljoin(L))
     bytecode_handlers["startTag"] = do_startTag
 
     def attrAction(self, item):
@@ -716,13 +714,13 @@ class TALInterpreter:
         # tal:content and i18n:translate, which is not translated.  In that
         # case we can just output the value to the stream
         if not self.i18nStack:
-            self._stream_write(value)
+            self.stream_write(value)
             return
         i18ndict, srepr = self.i18nStack[-1]
         i18ndict[varname] = value
         placeholder = '${%s}' % varname
         srepr.append(placeholder)
-        self._stream_write(placeholder)
+        self.stream_write(placeholder)
     bytecode_handlers['i18nVariable'] = do_i18nVariable
 
     def do_insertTranslation(self, stuff):
@@ -740,6 +738,7 @@ class TALInterpreter:
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
         currentTag = self._currentTag
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -765,7 +764,8 @@ class TALInterpreter:
         # translations.  OTOH, for implicit interpolation values, we don't
         # want to escape stuff like ${name} <= "<b>Timmy</b>".
         assert xlated_msgid is not None
-        self._stream_write(xlated_msgid)
+        self.col = col
+        self.stream_write(xlated_msgid)
     bytecode_handlers['insertTranslation'] = do_insertTranslation
 
     def do_insertStructure(self, stuff):
@@ -839,6 +839,7 @@ class TALInterpreter:
         lang, program = stuff
         # Use a temporary stream to capture the interpretation of the
         # subnodes, which should /not/ go to the output stream.
+        col = self.col
         tmpstream = self.StringIO()
         self.pushStream(tmpstream)
         try:
@@ -847,7 +848,8 @@ class TALInterpreter:
             self.popStream()
         code = tmpstream.getvalue()
         output = self.engine.evaluateCode(lang, code)
-        self._stream_write(output)
+        self.col = col
+        self.stream_write(output)
     bytecode_handlers["evaluateCode"] = do_evaluateCode
 
     def do_loop(self, stuff):
-- 
2.43.0


From 45d83cca7cd653532fc84caff5d5a76a0d01dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:26 +0000
Subject: [PATCH 27/27] fix: place source annotations under tal:on-error as
 without it

An annotation that was due when a part with tal:on-error was entered was
written later in that part, or in front of it although it belonged behind.
---
 src/zope/tal/talinterpreter.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/zope/tal/talinterpreter.py b/src/zope/tal/talinterpreter.py
index d694fbc..5976c2b 100644
--- a/src/zope/tal/talinterpreter.py
+++ b/src/zope/tal/talinterpreter.py
@@ -327,7 +327,7 @@ class TALInterpreter:
                 return
         self._pending_source_annotation = False
         self._stream_write = self.stream.write
-        self._stream_write(self.formatSourceAnnotation())
+        self.stream_write(self.formatSourceAnnotation())
         self._stream_write(s)
 
     def formatSourceAnnotation(self):
@@ -1015,8 +1015,12 @@ class TALInterpreter:
     def do_onError_tal(self, stuff):
         (block, handler) = stuff
         state = self.saveState()
+        pending = self._pending_source_annotation
         self.stream = stream = self.StringIO()
-        self._stream_write = stream.write
+        if pending:
+            self._stream_write = self._annotated_stream_write
+        else:
+            self._stream_write = stream.write
         try:
             self.interpret(block)
         # TODO: this should not catch ZODB.POSException.ConflictError.
@@ -1026,6 +1030,7 @@ class TALInterpreter:
         except BaseException:
             exc = sys.exc_info()[1]
             try:
+                self._pending_source_annotation = pending
                 self.restoreState(state)
                 engine = self.engine
                 engine.beginScope()
@@ -1040,8 +1045,14 @@ class TALInterpreter:
             finally:
                 engine.endScope()
         else:
+            # The text has been annotated already.
+            pending = self._pending_source_annotation
+            self._pending_source_annotation = False
             self.restoreOutputState(state)
             self.stream_write(stream.getvalue())
+            self._pending_source_annotation = pending
+            if pending:
+                self._stream_write = self._annotated_stream_write
     bytecode_handlers["onError"] = do_onError
 
     bytecode_handlers_tal = bytecode_handlers.copy()
-- 
2.43.0

