"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'src/hypertag/core/ast.py'; D = 'src/hypertag/core/dom.py'; T = 'src/hypertag/core/tag.py'
R = 'src/hypertag/core/runtime.py'; S = 'src/hypertag/core/structs.py'; G = 'src/hypertag/core/grammar.py'
B = 'src/hypertag/std/builtins.py'; H = 'src/hypertag/std/html.py'; P = 'src/hypertag/nifty/parsing.py'
E = 'src/hypertag/core/errors.py'
props = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p('C01', 'Plain text is HTML-escaped exactly once; markup and verbatim text never is',
  "In a plain-text (|) block every character that ends up in the text - literal text, escape sequences such as {{ or $$, and the string value of each embedded expression - appears in the output once and in order, with each of & < > replaced by its HTML entity exactly once and every other character unchanged. Text of markup (/) blocks is output without any escaping, and text of verbatim (!) blocks is copied without escaping and without interpreting $ or {}. An embedded expression contributes exactly the string form of its value (the common margin of a multi-line text is then handled as for any text of the block), and a value of None raises an error instead of being printed.",
  ['inputs', 'programs'], 'all texts, all values of embedded expressions, all numbers of pieces in a line, inline, outline and multi-line blocks, nested in any tags',
  'tests escape a few fixed strings; the guarantee is over every string, any mix of pieces and every context a text block may stand in',
  [A, H, D], [('html_escape', H), ('xline_normal/xline_markup/xline_verbat.render_inline, node._render_all', A), ('STR, expression_root.render', A), ('xescape, static.render', A)],
  ['Runtime.render output'])
p('C02', 'Tags render as well-formed elements whose attributes read back exactly',
  "A tagged block renders as its opening tag, the rendered body and the matching closing tag; a void tag renders as one self-closing element and raises an error if it is given a non-empty body. Attributes are printed in the order given: True as a bare name, False not at all, any other value as its string form quoted and escaped so that an HTML parser reads back exactly the original string, and repeated or shortcut (.class) occurrences of one attribute are joined with single spaces. Tags chained with a colon nest with the leftmost one outermost, each with its own attributes.",
  ['inputs', 'programs'], 'all tag names, numbers and values of attributes, bodies, chains',
  'tests use a handful of tags and attribute values; quoting, void handling and ordering must hold for every value, every attribute list and every chain length',
  [T, H, A, D], [('Markup.expand/_expand/_render_attr', T), ('CustomTag.expand, comment.expand', H), ('TagFunction.expand, Null.expand', T), ('xtags_expand.apply_tags, xtag_expand.translate_tag/_eval_attrs', A)],
  ['Runtime.render output', 'Tag.expand'])
p('C03', 'Block nesting follows leading whitespace exactly and preserves every line',
  "Block structure is determined by leading whitespace alone: each non-blank line opens or closes exactly the levels by which its leading whitespace differs from that of the previous non-blank line, and all levels are closed at the end. The content of each non-blank line (without its leading and trailing whitespace) and its line number are preserved through this conversion. If a line's leading whitespace is neither an extension nor a prefix of the previous one's, an IndentationError naming that line is raised, and in no other case.",
  ['inputs'], 'all scripts: any number of lines, any mix of spaces and tabs, blank lines anywhere',
  'tests contain some tens of well-indented scripts with spaces; the conversion must be right for every sequence of lines',
  [A], [('Grammar.preprocess', A)], ['Grammar.preprocess output', 'structure of the rendered document', 'IndentationError'],
  [('current', 'indentation of the last non-blank line', 'Grammar.preprocess'), ('margin', 'blank lines not yet emitted', 'Grammar.preprocess')])
p('C04', 'Any Unicode character may occur in a script without changing its meaning',
  "Characters that the parser uses internally to mark indentation may themselves occur in a script - in text, string literals or attribute values, in any number and next to any neighbouring code points - and are then treated like any other ordinary character. The characters chosen internally for a script are pairwise distinct and never occur in that script.",
  ['inputs'], 'all scripts containing any set of code points',
  'one test at most touches this; the choice must avoid collisions for every set of characters present in the script',
  [A, G], [('Grammar.get_parser, Grammar.__init__', A), ('terminals verbatim/text/text_quot', G)], ['Runtime.render output'],
  [('Grammar.symbols', 'the four special characters of a parser instance', A)])
p('C05', "The output reproduces the script's layout: indentation, blank lines, inline form",
  "Each block that starts on its own line is rendered on its own line, indented relative to its parent's output by exactly the whitespace by which it is indented relative to its parent in the script, with all lines of multi-line content shifted together and empty lines left empty; blank lines between blocks are kept one for one. Content of a text block that continues on following lines keeps its relative indentation, losing only the block's common margin. Tail content placed on the headline stays inline; a block marked < is dedented to its parent's level and a block marked ... is appended without a line break.",
  ['inputs', 'programs'], 'all nestings of blocks, indentation strings, text lines and blank-line counts',
  'tests pin the layout of fixed documents; layout arithmetic on indentation strings must hold for every nesting depth, indentation string and text',
  [D, A], [('add_indent, del_indent, get_indent', D), ('Node.set_indent/relative_indent/render, Root.render', D), ('block_text.render, xblock.translate, xmargin_out', A)],
  ['Runtime.render output'], [('State.indentation', 'absolute indentation of the block being translated', S), ('Node.indent/outline', 'relative indentation and line mode', D)])
p('C06', 'A try block yields its first non-failing clause; failed ones leave no trace',
  "A try block (long or short form) renders the content of its first clause that raises no exception, evaluating clauses in order and none after it; if all clauses fail it renders nothing and does not raise. Any Exception raised while a clause is translated (evaluation of expressions, assignments, attribute binding and hypertag expansion; external tags are expanded later, when the document is rendered) counts as failure, whereas KeyboardInterrupt, SystemExit and GeneratorExit pass through. Output produced by a failed clause before it failed never appears in the document, and the layout (indentation, nesting) of everything that follows is the same as if the clause had not been there.",
  ['programs', 'fault_sequences', 'inputs'], 'every position and depth at which evaluation of a clause can fail, any number of clauses',
  'tests fail a clause at one or two fixed points; the guarantee quantifies over every failure point, nesting and exception type',
  [A, S], [('xblock_try._select_branch', A), ('body.translate and block_text.render (finally)', A), ('State.indent/dedent', S)], ['Runtime.render output'],
  [('State.indentation', 'must be restored when a nested block fails', S)])
p('C07', 'The ? and ! qualifiers give exactly their documented results',
  "An expression marked ? evaluates to its value if that is true, and to the empty string if it is false or if its evaluation raises any Exception. An expression marked ! evaluates to its value if that is true, and raises an error if it is false; errors raised during its evaluation propagate. An unqualified expression evaluates to its value unchanged, whatever it is, and a qualifier binds to the factor it directly follows and to nothing else.",
  ['inputs', 'programs'], 'all values, all exceptions raised during evaluation, every syntactic position of a qualifier',
  'tests sample few values; all falsy/truthy values, exception types and positions (braces, $-embedding, attributes, factors inside expressions) matter',
  [A], [('expression.evaluate_with_qualifier', A), ('expression_root.setup, xfactor.setup/_eval_inner_qualified', A)], ['Runtime.render output'])
p('C08', 'Expressions evaluate as in Python',
  "Embedded expressions - literals, collections, arithmetic, shift, bitwise, comparison and logical operators, calls with positional and keyword arguments, indexing, slicing and member access - evaluate to what the same Python expression evaluates to with the script's variables bound, operands being evaluated left to right, each at most once, and not at all where Python's and, or, if-else or comparison chains would skip them. Unary minus applies to the whole multiplicative term that follows it, a missing else gives an empty string, and subexpressions separated by spaces are converted to strings and concatenated. x:f(args) means f(x, args), from left to right along a pipeline.",
  ['inputs', 'programs'], 'all expressions of the grammar and all operand values, chains of any length',
  'tests evaluate some dozens of fixed expressions; precedence, associativity, laziness and argument passing must hold for every combination and chain length',
  [A, G], [('chain_expression, xpow_expr, xarith_expr, xcomparison.evaluate', A), ('simple_chain_expression, xand_test, xor_test, xnot_test, xifelse_test', A), ('xcall, xpartial_call, partial, xindex, xslice_value, xmember, xfactor', A), ('xlist, xtuple, xset, xdict, xconcat_expr, xstring_format, literals', A), ('operator precedence', G)],
  ['Runtime.render output', 'values passed to functions called from a script'])
p('C09', 'Assignments bind, unpack and update variables as in Python',
  "An assignment block evaluates its right-hand side once and binds the variable, or, when the left-hand side contains a comma, unpacks the value element by element into the targets, recursively for nested targets, and raises an error naming the counts if the numbers of elements differ. An in-place assignment x op= e binds x to (x op e) using the current value of x as visible at that place. Assignment and expression blocks produce no output.",
  ['inputs', 'programs'], 'all target structures, values, operators and iterables',
  'tests use two or three targets and two operators; the guarantee is over every target tree, iterable length and operator',
  [A, G], [('xblock_assign.setup/translate', A), ('xtargets.assign/is_augmented/set_inplace', A), ('variable.assign/evaluate', A)], ['Runtime.render output', 'top-level symbols returned by translate()'])
p('C10', 'Control blocks execute exactly the selected clauses, in order',
  "An if block renders the first clause whose condition is true, or its else clause if none is, evaluating conditions in order and none after the first true one. A for block renders its body once per element of the iterable, in order, with the loop targets bound to that element, and a while block renders its body as long as its condition is true; the else clause of a loop is rendered if and only if the body was executed zero times. The outputs of iterations are concatenated in order and variables assigned inside stay visible after the block.",
  ['inputs', 'programs'], 'all numbers of clauses and iterations, all conditions, iterables and nestings',
  'tests run loops over short fixed lists; the guarantee is for every number of iterations and clauses and every nesting',
  [A], [('xblock_if._select_branch, xclause_if, xclause_else', A), ('xblock_for.setup/translate', A), ('xblock_while.translate', A), ('control_block.translate', A)], ['Runtime.render output'])
p('C11', 'Hypertag attributes bind like Python arguments, and the body is passed intact',
  "In an occurrence of a hypertag, positional attributes bind to the declared attributes in order, keyword attributes by name, and attributes not given take their declared default; too many, unknown, doubly given or missing required attributes raise an error, as does direct assignment to the body attribute. The body attribute receives the translated body of the occurrence, which appears wherever it is inserted with @ and nowhere else; a non-empty body passed to a hypertag without a body attribute raises an error. Used as a function, %H(text, ...) returns the same text that the tag renders for that body and attributes.",
  ['inputs', 'programs'], 'all attribute declarations and all occurrences (any mix of positional and keyword attributes)',
  'tests cover a few signatures; the binding must agree with the declared signature for every signature and every call',
  [A], [('xblock_def.setup/_append_attrs/expand', A), ('xtag_expand.setup/_eval_attrs', A), ('EmbeddedHypertag.__call__', A), ('xblock_embed.translate', A)], ['Runtime.render output', 'exceptions raised'])
p('C12', 'Expansions of a hypertag are independent of each other and of their caller',
  "What an occurrence of a hypertag renders depends only on its attributes, its body and the variables visible at its definition: it is the same wherever the occurrence stands and however many times and with whatever values the hypertag was expanded before. Variables assigned inside an expansion are not visible in later expansions and never change variables of the same name outside. This holds for hypertags defined locally, nested in other hypertags, imported from another script, or passed as values to functions and other tags.",
  ['histories', 'programs', 'inputs'], 'all sequences of expansions with all attribute values, nested and re-entrant ones included',
  'tests expand a tag once or twice with values that hide leaks; independence quantifies over all histories of expansions',
  [A, S], [('xblock_def.analyse/expand', A), ('ImportedHypertag.expand, EmbeddedHypertag', A), ('Slot.get/set', S)], ['Runtime.render output'], [('State.values', 'values of slots', S)])
p('C13', 'Names resolve lexically to the innermost visible definition',
  "A name refers to its most recent definition that precedes it in the script in the same or an enclosing block; symbols defined inside a tagged block or a hypertag definition are not visible outside it, and assigning there to a name defined outside does not change the outer variable, while control blocks open no scope of their own. Tags and variables live in separate namespaces, and user definitions and imports override built-ins. A reference to a name with no visible definition is an error before anything is rendered, and a reference to a variable whose defining clause was not executed is an error at that point.",
  ['programs'], 'all nestings of blocks, definitions, redefinitions and references',
  'tests check a few nestings; lexical scoping quantifies over all programs, and the symbol table must stay consistent over every sequence of push and reset operations',
  [S, A], [('MultiDict.push/pop/reset/asdict/pushnew, Context', S), ('Slot', S), ('variable.analyse, xblock_struct.analyse, xblock_def.analyse, control_block._analyse_branches', A)],
  ['Runtime.render output', 'NameError / UndefinedTagEx / UnboundLocalEx'], [('MultiDict.stack/lookup', 'stack of symbols and index of the topmost occurrence of each name', S)])
p('C14', 'DOM traversal and selection find exactly the right nodes, modifying nothing',
  "walk() yields every node of a DOM exactly once, each node before its descendants (preorder) or after them (postorder) with siblings in order, leaving out exactly the subtrees whose root satisfies the skip function. select() returns exactly the nodes, themselves and in walk order, that satisfy all given criteria (tag name or tag, attribute present, attribute value); skip() returns a DOM equal to the original less exactly the subtrees rooted at such nodes, built of copies and leaving the original unmodified. alter() replaces every node by the nodes its transform function returns, before descending to their children (preorder) or after (postorder). A DOM built from nested lists, DOMs and generators of nodes contains exactly those nodes, in order, without the None's.",
  ['inputs'], 'all DOM trees (any depth, width, tags and attributes) and all criteria',
  'tests select from one or two small documents; the guarantee is for every tree and every combination of criteria',
  [D], [('DOM.walk, Node.walk', D), ('DOM.select, DOM.skip, DOM._constraint, DOM._test', D), ('DOM.copy, Node.copy', D), ('DOM.alter, Node.alter', D), ('DOM._flatten', D)], ['results of walk/select/skip', 'rendered output'])
p('C15', 'Imports and context blocks bind exactly the requested symbols',
  "A context block binds the named tags and variables passed by the caller, under their new names if renamed, and raises an error for each missing one. An import block binds the requested symbol of the module (or all symbols not starting with an underscore, for *), under its new name if renamed, and raises an error if the module or the symbol does not exist. A relative path of n leading dots denotes the module n-1 levels above the importing script's folder or package, independently of the current directory, and importing a script twice in one runtime yields the same module.",
  ['inputs', 'configurations', 'programs'], 'all import paths and base locations, symbol names, renames, tag/variable namespaces and directory layouts',
  'tests import three or four fixed modules; path arithmetic and binding must hold for all paths, bases and layouts',
  [R, A], [('join_path', R), ('HyLoader.load, PyLoader, Loader.load', R), ('PyModule.__init__', R), ('xwild_import, xname_import, xcntx_import, xblock_context', A), ('HypertagAST.make_context', A)], ['Runtime.render output', 'ImportError'],
  [('Loader.cache', 'modules by location', R)])
p('C16', 'Standard library functions and filters satisfy their documented contracts',
  "crop returns the string itself if it is not longer than length + leeway, and otherwise a prefix of it followed by the end mark, at most length characters in total, whose last (possibly split) word is dropped if that costs at most maxdrop characters, unless killwords is set; merge collapses each run of whitespace to one space and strips the ends; inline replaces newlines by &#10; and changes nothing else; lower and upper convert case; dedent removes the common indentation of the lines (or, with full=True, all of it) and keeps their text. unique keeps the first occurrence of each distinct line in order; changes pairs every element with whether it differs from its predecessor; cycle pairs elements of all sequences cyclically for as long as its stop mode says. Each of them gives the same result as a tag on its body and as a function or filter on a string.",
  ['inputs'], 'all strings, lengths, sequences and parameters',
  'tests call each function on one or two inputs; contracts quantify over all strings and parameter combinations',
  [B, D], [('crop, merge, inline, unique, dedent, lower, upper, cycle, changes, doctype', B), ('unique', 'src/hypertag/nifty/util.py'), ('del_indent, get_indent', D), ('Registry, TagFunction', 'src/hypertag/std/registry.py')], ['return values', 'Runtime.render output'])
p('C17', 'Syntax errors are reported for exactly the invalid scripts and their first line',
  "A script whose lines do not form a valid document raises a SyntaxError whose message names the first line such that the script truncated after that line is already invalid, and quotes the beginning of that line. An error found after parsing that is due to an element of the script (an undefined name, a wrong number of attributes or of values to unpack, a value that is None) names the line at which this element stands in the original script, whatever the depth of its indentation and the number of lines, blank or comment lines before it. Well-formed scripts never raise syntax errors.",
  ['inputs'], 'all scripts and all positions of an error',
  'tests check that errors are raised, hardly where; the binary search and position arithmetic must be right for every script length and position',
  [A, E, P], [('HypertagAST.__init__/_locate_error', A), ('HError.make_msg', E), ('ParserError.__init__', P)], ['exception type and message'])
p('C18', 'Rendering is deterministic and independent of earlier renderings',
  "Unless scripts themselves mutate shared Python objects, rendering a script with given variables gives the same result whatever was rendered, imported or failed before in the same runtime or process: variables, definitions and built-ins overridden in one rendering are never visible in another. A translated document can be rendered any number of times with the same result. The built-in symbols are available to every script, and no script's redefinition of one affects other scripts.",
  ['histories', 'inputs', 'programs'], 'all sequences of renderings, successful or failed, of all scripts in one runtime',
  'tests render each script in a fresh context; independence quantifies over histories',
  [R, A, S, D], [('Runtime.import_builtins (copy of the cache), Runtime.translate', R), ('State, Context created per translation', A), ('DOM.render is read-only', D), ('Loader.cache', R)], ['Runtime.render output', 'symbols returned by translate()'],
  [('Runtime._builtins', 'cached built-in symbols', R), ('Loader.cache', 'modules by location', R)])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for q in props: f.write(json.dumps(q) + '\n')
