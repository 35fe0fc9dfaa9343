From 2a65f98c8bf851b60f78da775ac1f48a1a0d2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 01/27] fix: drop local symbols of a hypertag after its
 expansion, so they don't leak to subsequent expansions

---
 src/hypertag/core/ast.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..f42cb2f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -617,8 +617,12 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
-            dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
-            output = self.body.translate(state)
+            values = state.values.copy()
+            try:
+                dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)     # extend `state` with actual values of tag attributes
+                output = self.body.translate(state)
+            finally:
+                state.values = values           # local symbols of this expansion must not be visible in subsequent expansions
             output.set_indent(state.indentation)
             # return output
             
-- 
2.43.0


From 918c8c633ce111e504945027bac4c02f3234dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 02/27] fix: analyse the else clause of a for loop and don't
 take it for the loop's body

---
 src/hypertag/core/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f42cb2f..0ecb2dc 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -942,8 +942,9 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
-            self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            tail = self.children[2:]
+            self.else_ = tail.pop() if tail and tail[-1].type == 'clause_else' else None
+            self.body = tail[0] if tail else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -952,6 +953,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 7ac82ed1c9cbdcae30668e8fc15e8c5a37ff19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 03/27] fix: chained power operators are right-associative,
 like in Python

---
 src/hypertag/core/ast.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0ecb2dc..08e6d8f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1583,7 +1583,13 @@ class NODES(object):
             return head, tail
     
     class xpow_expr(chain_expression):
-        """chain of power operators: ** """
+        """chain of power operators: ** ... Right-associative like in Python: x**y**z is x**(y**z); operands are evaluated left to right."""
+        def evaluate(self, state):
+            vals = [expr.evaluate(state) for expr in self.children[0::2]]
+            res = vals.pop()
+            for op in reversed(self.children[1::2]):
+                res = op.apply(vals.pop(), res)
+            return res
     class xterm(chain_expression):
         """chain of multiplicative operators: * / // %"""
     class xshift_expr(chain_expression):
-- 
2.43.0


From ce8683334cc48a77997e6db7619b26f0af66eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 04/27] fix: chained comparisons are evaluated like in Python

---
 src/hypertag/core/ast.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 08e6d8f..5fae295 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1659,9 +1659,21 @@ class NODES(object):
             
             
     class xcomparison(chain_expression):
-        "chain of comparison operators: < > == >= <= != in is, not in, is not"
+        """
+        Chain of comparison operators: < > == >= <= != in is, not in, is not ... Like in Python, x < y < z means (x < y) and (y < z),
+        with `y` evaluated once, and `z` not evaluated at all if (x < y) is false.
+        """
         raise_null = False
         
+        def evaluate(self, state):
+            left = self.children[0].evaluate(state)
+            for op, expr in zip(self.children[1::2], self.children[2::2]):
+                right = expr.evaluate(state)
+                res = op.apply(left, right)
+                if not res: return res
+                left = right
+            return res
+        
     class xnot_test(expression):
         """not not not ..."""
         def evaluate(self, state):
-- 
2.43.0


From 91fa86daa554f20259b001859264f15f70d279da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 05/27] fix: identifiers that begin with True, False or None
 can be used in expressions

---
 src/hypertag/core/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..23df444 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -266,8 +266,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From b6ee92f017c424365e691419bd2df1330885f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 06/27] fix: unpack the value assigned to a single target with
 a trailing comma, report the actual number of unpacked values

---
 src/hypertag/core/ast.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 5fae295..d97cdd2 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1041,7 +1041,11 @@ class NODES(object):
     class xtargets(node):
         def is_augmented(self):
             """True if self represents multiple targets (not a plain variable) to assign to."""
-            return len(self.children) >= 2 or self.children[0].type != 'var_def'
+            return self.is_tuple() or self.children[0].type != 'var_def'
+        
+        def is_tuple(self):
+            """True if the assigned value must be unpacked: there was at least one comma, maybe a trailing one after a single target."""
+            return len(self.children) >= 2 or self.text().rstrip().endswith(',')
         
         def set_inplace(self):
             self.children[0].set_inplace()
@@ -1053,17 +1057,18 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if not self.is_tuple():
                 self.children[0].assign(state, value)
                 return
             
             # unpack and assign to multiple child targets
-            i = 0
-            for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
-                if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
-                self.children[i].assign(state, v)
-            if i+1 < N:
-                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, i+1), self)
+            count = 0
+            for v in value:                             # raises TypeError if `value` is not iterable
+                if count >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
+                self.children[count].assign(state, v)
+                count += 1
+            if count < N:
+                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, count), self)
             
         def evaluate(self, state):
             assert len(self.children) == 1
-- 
2.43.0


From 6b30b0c410955ad36a73557433306998734792c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 07/27] fix: an unparenthesized 1-element tuple (x,) is a
 tuple, not the element alone

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d97cdd2..a529fa4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1958,7 +1958,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From 9b4ddf96587f878fa455ab5ba0f394b7c024f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 08/27] fix: select() and skip() by attribute handle nodes that
 have no attributes

---
 src/hypertag/core/dom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..e6d826b 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -252,9 +252,10 @@ class DOM:
         if tag  is not None and node.tag is not tag: return False
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
+        kwattrs = node.kwattrs or {}            # nodes without a tag (text nodes, for instance) have no attributes
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
-            if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
+            if a not in kwattrs: return False
+            if v is not DOM.ATTR_DEFINED and kwattrs[a] != v: return False
 
         return True
     
-- 
2.43.0


From b0143b640f8fe1fa095c8ceefe256cc4e2eefef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 09/27] fix: infer the package of a script from its import
 path, not from a file path

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..b3645de 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -254,7 +254,7 @@ class HyLoader(Loader):
                     package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
                 
                 location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
+                python_path = package_name + '.' + filename
                 if location and not os.path.exists(location):
                     location = python_path = None
                 
-- 
2.43.0


From 459829d89cd5d34eb70d92b0f2de81d2170a3483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 10/27] fix: scripts in folders that are not Python packages
 can be imported by absolute paths

---
 src/hypertag/core/runtime.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index b3645de..a72156e 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -248,15 +248,21 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                    package_path = pkg.__file__                             # None if the folder has no __init__.py inside (a namespace package)
+                except ModuleNotFoundError as ex:
+                    if not (package_name + '.').startswith('%s.' % ex.name): raise
+                    package_path = None                                     # not a python package, the methods below may still succeed
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_name + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
+                
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = package_name + '.' + filename
+                    if location and not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
-- 
2.43.0


From 02730ab3e285372bc7443cf2adc7e64322e85115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:51 +0000
Subject: [PATCH 11/27] fix: copy DOM nodes embedded with @, so that a body
 inserted in many places has a proper layout in each

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index a529fa4..0f12438 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -515,7 +515,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # the same nodes can be embedded in many places, each having a different layout
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From 20ff25720379b5cfb9d992c8ae2430f4885d58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:25 +0000
Subject: [PATCH 12/27] fix: don't duplicate empty lines that stand at the
 beginning of a control block or a hypertag body

---
 src/hypertag/core/ast.py | 6 ++++--
 src/hypertag/core/dom.py | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0f12438..34875df 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -456,7 +456,7 @@ class NODES(object):
             dedent = (self.modifier == '<')
             
             if not append:
-                block[0].set_outline()            # mark the 1st node of the block as being "outline" not "inline"
+                block.set_outline()               # mark the 1st node of the block as being "outline" not "inline"
             if dedent:
                 block.set_indent('')
             return DOM(margin, block)
@@ -626,7 +626,7 @@ class NODES(object):
             output.set_indent(state.indentation)
             # return output
             
-            if output: output[0].set_outline(False)         # node's `outline` will be set for the root node up in xblock.translate()
+            output.set_outline(False)                       # node's `outline` will be set for the root node up in xblock.translate()
             return DOM.node(output, state.indentation, tag = self.native, kwattrs = dom_attrs)
 
         def _append_attrs(self, body, attrs, kwattrs, state, caller):
@@ -1828,6 +1828,8 @@ class NODES(object):
         """
         def setup(self):
             self.value = self.text()[:-1]
+        def translate(self, state):
+            return DOM.text(self.value, margin = True) if self.value else DOM()
 
     class xescape(static):
         def setup(self):
diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index e6d826b..1b8aafc 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -133,6 +133,11 @@ class DOM:
         for n in self.nodes:
             n.set_indent(indent)
             
+    def set_outline(self, outline = True):
+        """Set `outline` on the 1st node that's not a margin: empty lines that preceed a block are rendered as they are."""
+        for n in self.nodes:
+            if not n.margin: return n.set_outline(outline)
+            
     def render(self):
         return ''.join(node.render() for node in self.nodes)
 
@@ -278,6 +283,7 @@ class DOM:
         
         body    = None      # DOM (possibly empty) containing child nodes of a non-terminal node; None in DOM.Text
         
+        margin  = False     # True in a text node that consists of empty lines preceeding a block
         outline = False     # True/False denotes an "outline" block or an "inline" node; adds a leading newline during rendering if True
         indent  = None      # indentation string of this block: absolute (when starts with \n) or relative
                             # to its parent (otherwise); None means this is an inline (headline) block, no indentation
-- 
2.43.0


From 4a3450c7bc57fe13512e15d1fed1bf02b5d67e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 13/27] fix: don't leave spaces in place of a missing headline
 of a text block

---
 src/hypertag/core/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 34875df..819eabc 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -493,6 +493,10 @@ class NODES(object):
                 if output[drop:drop+1] == ' ': drop += 1
                 output = output[drop:]
                 
+            # no headline? drop the spaces that were prepended in its place
+            if body.startswith('\n'):
+                output = output.lstrip(' ')
+                
             # # drop the 1st line (headline) if empty
             # if output.split('\n', 1)[0].strip() == '':
             #     output =
-- 
2.43.0


From da57acde4d70b18389c2a994da7393b6e19c5b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 14/27] fix: only leading spaces and tabs make indentation,
 other Unicode whitespace is content of the line

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 819eabc..b0623a7 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -223,7 +223,7 @@ class Grammar(Parsimonious):
         for line in script:
             linenum += 1
             line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            tail = line.lstrip(' \t')             # only spaces and tabs make indentation, any other whitespace is content
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
-- 
2.43.0


From 7751b6993672e7477c646b25d303436a220cc165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 15/27] fix: alter() transforms nodes before their descendants
 in preorder and after them in postorder, not the other way round

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 1b8aafc..ca159ce 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -179,13 +179,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From 19a8e75590b6cd9cce5e81acc7e7b2d3755df087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 16/27] fix: report the line where the offending element
 begins, not the one where it ends

---
 src/hypertag/nifty/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0


From 16c60f61dd9932d38d5434787c822f20b57ccf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 17/27] fix: report the line of a positional attribute that
 follows a keyword one

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b0623a7..8b60e8f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1168,7 +1168,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", attr)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
-- 
2.43.0


From 3d651357abaefcadebdf4fc5ba469807524910d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:38 +0000
Subject: [PATCH 18/27] fix: != in the condition of a control block is the
 operator, not a verbatim text body

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 23df444..cab29cf 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -49,7 +49,7 @@ target           =  ('(' ws targets ws ')') / var_def           # left side of a
 var_def          =  name_id ''                                  # definition (assignment) of a variable
 
 tail_for         =  (expr_factor generic_control) / (expr_augment body_control?)
-tail_if          =  (expr_factor generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
+tail_if          =  (expr_factor !(ws '!=') generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
 
 ###  DEFINITION BLOCKS
 
-- 
2.43.0


From bc4f9ce22781bbd9eb46e301c91815217bc894b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:20 +0000
Subject: [PATCH 19/27] fix: an else clause with an empty body renders nothing
 instead of failing an assertion

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8b60e8f..cd6dccd 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -912,7 +912,7 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
+            if not self.children: return DOM()          # empty body
             return self.children[0].translate(state)
         
     class xblock_while(control_block):
-- 
2.43.0


From 3f487e3a808021c1d675b4324e3224aba824d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:23 +0000
Subject: [PATCH 20/27] fix: never mark indentation with characters that may be
 taken for a part of an adjacent word, name or whitespace

---
 src/hypertag/core/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index cd6dccd..a119715 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -154,6 +154,8 @@ class Grammar(Parsimonious):
     SPECIAL_SYMBOLS = ['INDENT_S', 'DEDENT_S', 'INDENT_T', 'DEDENT_T']
     CHARS_DEFAULT   = [u'\u2768', u'\u2769', u'\u276A', u'\u276B']              # indent/dedent special chars to be used in `default` parser
     
+    CHARS_EXCLUDED  = re.compile(r'[\s\w%s]' % XML_Char)                       # never used as special chars
+    
     symbols = None      # dict of special symbols: {symbol_name: character}
     
     def __init__(self, special_chars):
@@ -186,10 +188,11 @@ class Grammar(Parsimonious):
         
         chars = []
         
-        # find 4 unicode characters that are not in `text`; start with CHARS_DEFAULT[0]
+        # find 4 unicode characters that are not in `text` and can't be taken for a part of an adjacent word (see "\b" in
+        # the grammar), XML name or whitespace; start with CHARS_DEFAULT[0]
         code = ord(Grammar.CHARS_DEFAULT[0])
         for _ in range(4):
-            while chr(code) in text:
+            while chr(code) in text or Grammar.CHARS_EXCLUDED.match(chr(code)):
                 code += 1
             chars.append(chr(code))
             code += 1
-- 
2.43.0


From c1ea58ecec50d6eb4c4d049ac7115fb9ebbed6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 21/27] fix: a!=b without spaces is a comparison, not an
 obligatory expression

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index cab29cf..e9e3d99 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -191,7 +191,7 @@ atom         =  literal / var_use / tag_use / subexpr / tuple / list / dict / se
 factor_var   =  var_use trailer* qualifier?                   # reduced form of `factor`: a variable with optional trailer, no spaces allowed
 factor_strict=  atom trailer* qualifier?                      # reduced form of `factor`: no spaces allowed before the trailer
 factor_filt  =  atom trailer_filt*                            # reduced form of `factor`: no function call () allowed; for use as filter function in `pipeline`
-factor       =  atom (ws trailer)* qualifier?                 # operators: () [] .
+factor       =  atom (ws trailer)* (!'!=' qualifier)?         # operators: () [] . ... a!=b is a comparison, not a qualifier
 
 pow_expr     =  factor (ws op_power ws factor)*
 term         =  pow_expr (ws op_multiplic ws pow_expr)*       # operators: * / // percent
-- 
2.43.0


From c710f75fc0ce1f0af76b3e1c04818fa685704afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 22/27] fix: an even number of nots evaluates to a boolean,
 like in Python

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index a119715..84818e0 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1692,7 +1692,7 @@ class NODES(object):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
             neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            return not val if neg else bool(val)
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From 6e5320484343d66e4ea8958e106d55d12b81f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 23/27] fix: a script imported repeatedly by a relative or
 package path is loaded once

---
 src/hypertag/core/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index a72156e..2a59adf 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -276,6 +276,7 @@ class HyLoader(Loader):
                 location = self._join_path(ref_root, '.' + path)
                 python_path = self._make_absolute('.' + path, referrer)
 
+        if location in self.cache: return self.cache[location]
         if not location or not os.path.exists(location):
             return None
         
-- 
2.43.0


From b584fb6e86439c1157b3004fcab7f5e5707e6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:48 +0000
Subject: [PATCH 24/27] fix: a hypertag called as a function inside a text
 block gets the same layout as elsewhere

---
 src/hypertag/core/ast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 84818e0..c7fb3c9 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -135,7 +135,12 @@ class EmbeddedHypertag:
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
         body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
-        dom  = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        indent = self.state.indentation
+        self.state.indentation = '\n'               # inside a text block, current indentation is a relative one, without leading newline
+        try:
+            dom = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        finally:
+            self.state.indentation = indent
         dom.set_indent('')
         return dom.render()
 
-- 
2.43.0


From f012dc43d950ebaf29cf8aacebf4babbcf6ea614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:06 +0000
Subject: [PATCH 25/27] fix: a TypeError raised inside a block is not replaced
 by an unpacking error (PyPy)

Unpacking a generator directly makes PyPy replace a TypeError raised by the
generator with 'cannot unpack non-iterable generator object', which loses the
message and the position of the error in the script.
---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c7fb3c9..f630ab1 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -457,7 +457,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From 8f2b5000f64b1fa9c14c782d5940f6afb04cd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:05 +0000
Subject: [PATCH 26/27] fix: a failed import of built-ins left the runtime with
 some of them missing

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 2a59adf..f361fa1 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -340,10 +340,11 @@ class Runtime:
         This typically means all general-purpose symbols + standard tags/variables specific for a target language.
         """
         if self._builtins is None:
-            self._builtins = {}
+            builtins = {}
             for path in self.BUILTINS:
                 module = self.import_module(path, RootModule(), None)
-                self._builtins.update(module.symbols)
+                builtins.update(module.symbols)
+            self._builtins = builtins                   # only set when all the modules have been imported
                 
         return dict(self._builtins)
         
-- 
2.43.0


From 5128259934d9f6288aa717d4bf0cfc20b90163ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:27 +0000
Subject: [PATCH 27/27] fix: the operators is, is not, in and not in must end
 at a word boundary

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index e9e3d99..c3ec758 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -246,7 +246,7 @@ op_shift     =  '<<' / '>>'
 op_empty     =  '?' / '!'
 
 not          =  'not'
-op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not|in|is"
+op_comp      =  ~"==|!=|<>|>=|<=|<|>|(not\s+in|is\s+not|in|is)\\b"
 
 ###  IDENTIFIERS
 
-- 
2.43.0

