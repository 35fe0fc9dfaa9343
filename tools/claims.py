T = 'contract-based deductive verification of the real Python functions (symbolic execution of the source in /repo to verification conditions, z3/cvc5)'
BOUND = ' Bounded stand-in, not counted as proved: random end-to-end scripts against an independent oracle.'
CLAIMED['C07'] = (T, 'proof', 'evaluate_with_qualifier, expression_root.setup, xfactor.setup and _eval_inner_qualified proved for all values and exceptions against stubs of the enclosed expressions.' + BOUND)
CLAIMED['C08'] = (T, 'proof', 'The evaluate methods of all expression nodes proved for all operand values and chain lengths; the grammar (precedence) is outside the verifier.' + BOUND)
CLAIMED['C01'] = (T, 'proof', 'html_escape, Runtime.escape, render_all, the line/escape/expression node translations and comments proved for all strings and values.' + BOUND)
CLAIMED['C02'] = (T, 'proof', 'Markup.expand (one attribute of any value; attribute lists of any length), Null, TagFunction, Tag.__call__, tag chains of any length, tag occurrences and attribute evaluation for any number of attributes proved.' + BOUND)
CLAIMED['C05'] = (T, 'proof', 'add_indent/del_indent for texts of any number of lines; INDENT/DEDENT state, DOM set_indent/set_outline/relative_indent/render, block and margin translation proved for all inputs.' + BOUND)
CLAIMED['C06'] = (T, 'proof', 'The try block translation proved for any number of branches with arbitrary exceptions and state changes; restoration of the state by expansions, bodies and calls proved.' + BOUND)
CLAIMED['C09'] = (T, 'proof', 'Assignment blocks, unpacking of any iterable into any number of targets, in-place operators, slots and binding of variables, expression blocks proved for all values and errors.' + BOUND)
CLAIMED['C10'] = (T, 'proof', 'if, for and while blocks proved for any number of clauses, elements and iterations with arbitrary errors (0-2 nodes per iteration; termination of while not claimed).' + BOUND)
CLAIMED['C14'] = (T, 'proof', 'DOM construction, select/skip, get/set/copies, filters and traversal functions of dom.py proved for trees of any size and shape (recursion by contract).' + BOUND)
CLAIMED['C16'] = (T, 'proof', 'crop, unique, changes, cycle (1-3 sequences), inline, doctype proved for all strings/sequences and parameters; merge and dedent(full) proved to be the stated re.sub/strip of the whole text (library calls by contract), lower/upper likewise; TagFunction.' + BOUND)
CLAIMED['C11'] = (T, 'proof', 'Attribute binding and expansion of hypertags proved for all values (up to 3 declared attributes, 4 positional and 2 keyword values: labelled bounded), use as functions, embedding of bodies of any length.' + BOUND)
CLAIMED['C12'] = (T, 'proof', 'Restoration of the variables after every expansion (also failed ones), expansion of imported hypertags in the state of their module, exact contents of the state during an expansion (bounded number of attributes) proved.' + BOUND)
CLAIMED['C15'] = (T, 'proof', 'join_path proved for any number of leading dots and any base; loaders (relative and absolute paths, caching), the order of loaders, named imports and context symbols (renamed or not) for all names and values; import * and Python modules for a bounded number of symbols.' + BOUND)
CLAIMED['C18'] = (T, 'proof', 'Built-ins never shared between translations, new module/scope/state per translation, rendering leaves the document unchanged and repeats (any number of children); document symbols for a bounded number of definitions.' + BOUND)
CLAIMED['C13'] = (T, 'proof', 'The scope (push, pop, reset, lookup) proved for any number of definitions of any names, by induction over the stack; uses, definitions and in-place assignments of variables, uses of tags, assignments and the order of analysis of all nodes proved over an arbitrary scope; tagged blocks, hypertag definitions, branches, loops and documents over an arbitrary scope with up to 2 or 3 new names each (labelled bounded); one known finding.' + BOUND)
CLAIMED['C04'] = (T, 'proof', 'Grammar.get_parser and Grammar.__init__ proved for every script (set of characters): the four symbols are pairwise distinct and not in the script, and exactly these symbols are put into the grammar. The parser generator (parsimonious) is outside the verifier: the parsed document as a whole is checked bounded only.' + BOUND)
CLAIMED['C17'] = (T, 'proof', 'The binary search for the first invalid line proved for any number of lines over any monotone parser; message and line arithmetic of ParserError/HError and of nodes proved; line of errors of undefined names, numbers of values and attributes, None proved through the contracts of the nodes that raise them.' + BOUND)
CLAIMED['C03'] = (T, 'proof', 'Grammar.preprocess proved for any number of lines with any contents: every non-blank line written with its content on its own line after exactly the indentation symbols by which it differs from the previous non-blank one; IndentationError if and only if neither indentation is a prefix of the other, naming the first such line. That the grammar turns the symbols into nesting is checked bounded only.' + BOUND)
NOT_APPLICABLE = {}     # {property: reason}; every property is claimed
