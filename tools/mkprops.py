"""Writes properties.jsonl (run by hand when a property is edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, obs=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if obs: a["observe_at"] = obs
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

p("P01", "A proof step is accepted exactly when its rule licenses it",
  "A step command is accepted if and only if some instantiation of the declared rule's parameters matches the given arguments, the (possibly combined) proven premises and the declared assumption, satisfies the rule's requirements, and yields a conclusion that equals the stated one (for rules with an explicit conclusion, the stated conclusion itself is passed in). "
  "A step that is accepted makes exactly the rule's instantiated conclusion available as a premise for later steps, and a step that any of these conditions rules out is rejected with an error.",
  ["inputs", "programs"], "every rule shape (arguments, premises, premise list, requires, conclusion or explicit conclusion, implicit parameters) with every choice of arguments, premises and claimed conclusion up to a bound, and every later use of the step's name",
  "The tests hold a few correct proofs and fewer wrong ones; soundness is about every wrong claim being refused for every rule shape, which no list of samples settles.",
  ["src/cmd_parser.cpp", "src/type_checker.cpp", "src/state.cpp"],
  [("step argument order and conclusion check", "src/cmd_parser.cpp CmdParser::parseNextCommand, case STEP"),
   ("rule application as type checking of the proof term", "src/type_checker.cpp getTypeAppInternal"),
   ("matching", "src/type_checker.cpp match"),
   ("premise list combination", "src/cmd_parser.cpp / src/state.cpp getProofRule, isListRule")])
p("P02", "Local assumptions are discharged and go out of scope exactly once",
  "Everything introduced between the opening of a local assumption and the step that closes it (assumptions, steps, symbols) is unavailable after the closing step, and everything introduced before stays available. "
  "The closing step is applied to the innermost open assumption, passes that assumption's formula to a rule declared for it, and is refused when there is no open assumption or the rule declares none; a rule that needs a local assumption cannot be applied by an ordinary step.",
  ["histories"], "every sequence of declare / assume / open / step / close commands up to a depth, including nested scopes, shadowed names and uses after close",
  "Scoping bugs need particular nested sequences; the tests contain only a handful of well-formed ones and nearly no use-after-close.",
  ["src/state.cpp", "src/cmd_parser.cpp"],
  [("assumption scopes", "src/state.cpp pushAssumptionScope, popScope"), ("commands", "src/cmd_parser.cpp ASSUME_PUSH, STEP_POP")],
  [("assumption scope stack", "which assumptions are open and how much was declared when each was opened", "src/state.h d_assumptionsSizeCtx, d_declsSizeCtx")])
p("P03", "With a reference file, only its assertions can be assumed",
  "Once a reference file has been read, every later assumption that is not opened as a local, dischargeable one must be one of the formulas asserted in that file (where the normalization routine given with the file, if any, is applied to both the asserted and the assumed formula before they are compared); any other assumption is an error. "
  "This holds however the reference is given (command or option), whatever else is included before or after it, and at any nesting of local assumptions.",
  ["histories", "configurations"], "every order of reference, include, assume, local-assume and step commands up to a depth, both ways of giving the reference, every subset of asserted formulas, with and without normalization",
  "The whole point is that no history lets an unasserted formula through; tests check single-file histories only.",
  ["src/state.cpp", "src/cmd_parser.cpp", "src/main.cpp"],
  [("reference bookkeeping", "src/state.cpp includeFile, addReferenceAssert, addAssumption"), ("reference command", "src/cmd_parser.cpp REFERENCE, ASSERT")],
  [("reference flag", "whether assumptions must be validated", "src/state.h d_hasReference, d_referenceAsserts")])
p("P04", "The verdict is 'correct' only for proofs free of unproven rules",
  "A run that accepts all its commands prints exactly one verdict: 'incomplete' if at least one step used a rule that is marked as unproven, and 'correct' otherwise, with exit status zero. "
  "A run with any error prints no verdict and exits with a failure status.",
  ["histories"], "every command sequence up to a depth mixing marked and unmarked rules, steps, local scopes, includes, exit and failing commands",
  "Every history that reaches the verdict must agree with it, e.g. when the marked step is used inside a scope, an included file, or before an exit; tests cover one or two.",
  ["src/main.cpp", "src/state.cpp", "src/cmd_parser.cpp"],
  [("verdict", "src/main.cpp; src/state.cpp isProofRuleSorry; src/cmd_parser.cpp STEP")])
p("P05", "Literal operations compute the mathematically correct result",
  "Each builtin operation over Boolean, numeral, rational, bit-vector and string literals evaluates to the value its documentation defines, at every magnitude and width, and remains unevaluated exactly when the documentation says it does not evaluate (mixed categories, division by zero, out-of-range conversions). "
  "The result is the canonical literal, so it is identical to the same literal written in the input.",
  ["inputs"], "every operator with all combinations of literals of every category from a bounded set including sign, word and limb boundaries, all bit-vectors up to a width and strings up to a length",
  "Arithmetic errors sit on particular values (negative divisors, word boundaries, last bits, empty strings); tests try a few values per operator.",
  ["src/literal.cpp", "src/util/bitvector.cpp", "src/util/integer.cpp", "src/util/rational.cpp", "src/util/string.cpp"],
  [("literal evaluation", "src/literal.cpp Literal::evaluate"), ("number and string classes", "src/util/*.cpp")])
p("P06", "List operations respect order, multiplicity and terminators",
  "The list operations (cons, concat, nth, find, erase, erase-all, reverse, setof, minclude, meq, diff, inter, singleton elimination, length, nil and is-list tests) on terms built with an associative operator with terminator return the documented term for every list, for right- and left-associative operators alike, and do not evaluate on non-lists. ",
  ["inputs"], "every operation applied to all pairs of lists up to a length over a small alphabet (so with every pattern of repeated elements), for right- and left-associative operators with constant and type-dependent terminators, and to non-lists",
  "Multiplicity, order and non-list behaviour only differ on particular element patterns; tests use one or two lists per operator.",
  ["src/type_checker.cpp", "src/expr.cpp"],
  [("list evaluation", "src/type_checker.cpp evaluateLiteralOpInternal"), ("list helpers", "src/type_checker.cpp getNAryChildren, prependNAryChildren, isNAryList")])
p("P07", "Programs evaluate by the first matching case",
  "Applying a program to arguments evaluates to the result of the first case whose patterns match the evaluated arguments, under the substitution found by the match, evaluated in turn; repeated pattern variables match only equal terms, and if no case matches the application does not evaluate. "
  "The outcome does not depend on how deep the recursion is or on what was evaluated before.",
  ["programs", "inputs"], "all programs of up to a few cases built from a pattern set (nested, non-linear, overlapping, literal patterns) on all ground arguments up to a term depth, and recursion depths up to several hundred",
  "First-match semantics is a statement over all case lists and all arguments; tests run single programs on single inputs.",
  ["src/type_checker.cpp", "src/cmd_parser.cpp"],
  [("program evaluation", "src/type_checker.cpp evaluate, evaluateProgramInternal, match"), ("program definition", "src/cmd_parser.cpp PROGRAM")])
p("P08", "Core evaluation operators follow their definition; stuck stays stuck",
  "The core operators (conditional, requires, equality test, is-ok, hash, compare, typeof, nameof and the like) evaluate as documented on all terms; the conditional evaluates only the taken branch. "
  "A term one of whose needed parts does not evaluate does not evaluate itself, is never taken for a value, and evaluation of a term gives the same result whether it happens at parse time, after a macro expansion, or inside a program or rule body after substitution.",
  ["programs", "inputs"], "all nestings of core operators over a set of evaluating, non-evaluating and symbolic terms up to a depth, each evaluated directly and through a program and a rule",
  "Strictness and evaluation-order faults show only for certain nestings; there are thousands of them at depth two and the tests hold a few.",
  ["src/type_checker.cpp", "src/state.cpp"],
  [("evaluation loop", "src/type_checker.cpp evaluate"), ("literal operators", "src/type_checker.cpp evaluateLiteralOpInternal")])
p("P09", "Associativity, chaining and list annotations desugar as declared",
  "An application of a symbol declared right- or left-associative (with or without terminator, constant or type-dependent), chainable, pairwise, binder or argument-list denotes exactly the term its annotation prescribes, for any number of arguments; arguments marked as lists are spliced in order rather than nested; and applications with a single argument are treated as documented.",
  ["inputs", "programs"], "every annotation kind, every number of arguments up to a large bound, and every choice of which arguments are list-marked and what lists they are instantiated with",
  "The arity and the mix of list and non-list arguments are unbounded; tests use two to four arguments.",
  ["src/state.cpp", "src/expr_parser.cpp", "src/type_checker.cpp"],
  [("application construction", "src/state.cpp mkApply, mkApplyAttr"), ("concat at evaluation", "src/type_checker.cpp evaluateLiteralOpInternal")])
p("P10", "Only well-typed terms are accepted and types are computed correctly",
  "Every term that a command requires to be well typed (the types in declarations and parameter lists, the formulas that are assumed, asserted, stated or concluded, and definitions annotated with a type) is accepted exactly if it has the required type, where the type of an application is the one that its head's declared type determines for the given arguments, including type parameters and dependent result types. An application anywhere in such a term whose argument types do not match is an error.",
  ["inputs", "programs"], "all terms up to a depth over a signature with functions, higher-order, polymorphic and ill-typed combinations, and all function signatures from a bounded set of types",
  "Type soundness quantifies over all ill-typed terms; tests hold a few.",
  ["src/type_checker.cpp"],
  [("application typing", "src/type_checker.cpp getTypeAppInternal"), ("leaf and literal types", "src/type_checker.cpp getTypeInternal, getLiteralTypeRule")])
p("P11", "Names resolve by scope, shadowing and overloading rules",
  "A name used in a term denotes the innermost binding in force at that point (let, binder, parameter, local scope, global), a closed scope's bindings are gone afterwards, and undeclared names are errors. When several bindings of a name are visible, an application of that name denotes the innermost one that type checks for the arguments, and a qualified identifier selects the one with the stated type. A name defined as another symbol denotes that symbol, whatever is declared later.",
  ["histories", "inputs"], "all sequences of declarations, definitions, lets, binders and scoped commands up to a depth with uses of each name at each point; all sets of overloads over a bounded set of signatures in every declaration order",
  "Resolution depends on the history of declarations, which tests cover by a few examples.",
  ["src/state.cpp", "src/expr_parser.cpp"],
  [("symbol table", "src/state.cpp bind, pushScope, popScope, getVar"), ("overloads", "src/state.cpp mkApply, getOverload")],
  [("symbol table", "current bindings of names", "src/state.h d_symTable")])
p("P12", "Every literal and symbol in the text denotes exactly what was written",
  "Tokens are read according to the lexical grammar: numerals, decimals, rationals, hexadecimals, binaries and strings (with their escapes) denote exactly the value written, quoted and simple symbols exactly their characters, comments and whitespace are never part of a token, and text that is not a token is rejected with an error. "
  "This does not depend on where in the input the token lies, how long it is, or on the whitespace around it.",
  ["inputs"], "all strings up to a length over an alphabet of character classes, in several contexts, and all tokens at every offset around the input buffer boundaries",
  "Lexer faults sit on particular character sequences, lengths and buffer offsets; tests are ordinary well-formed files.",
  ["src/lexer.cpp", "src/input.cpp", "src/expr_parser.cpp", "src/literal.cpp"],
  [("tokenizer", "src/lexer.cpp nextTokenInternal, tokenizeCurrentSymbol"), ("string escapes", "src/util/string.cpp")])
p("P13", "Syntactic identity is stable across any history of the run",
  "Two terms are considered equal if and only if they are written as the same term, no matter how many other terms were created and discarded in between, and no evaluation, hash, comparison or type result that was observed once changes later in the run. "
  "Creating and discarding terms never makes the checker access freed memory.",
  ["histories"], "all sequences of operations that create, hold, discard and compare terms up to a depth, under memory error detection, and long repetitive histories",
  "Reference counting and cache invalidation errors depend on the order of releases across commands; a test's short history rarely recycles a term.",
  ["src/state.cpp", "src/expr.cpp", "src/type_checker.cpp", "src/expr_trie.h"],
  [("hash consing", "src/state.cpp mkExprInternal, markDeleted"), ("caches", "src/type_checker.cpp, src/state.h d_typeCache d_hashMap")])
p("P14", "Bound variables are identified by name and type, binders by their list",
  "Quantified terms introduce variables visible only in their body; two binders with the same variable names, types and body are the same term, and different names, types, order or body give different terms. "
  "Explicit variable construction denotes the same variable as the binder with that name and type, and a variable with the name of a declared symbol shadows it only inside the binder.",
  ["inputs"], "all nested binder terms up to a depth over two names and two types with every placement of occurrences, compared pairwise",
  "Identity over nested and shadowing binders is a property of all pairs; tests compare few.",
  ["src/expr_parser.cpp", "src/state.cpp", "src/type_checker.cpp"],
  [("binder parsing", "src/expr_parser.cpp parseAndBindSortedVarList"), ("bound variables", "src/state.cpp getBoundVar")])
p("P15", "Printed terms read back as the same term",
  "A term or literal that the checker prints in an error or trace denotes, when read back with the same declarations, the term it stands for, with or without the sharing of subterms; in particular distinct literals print differently, and symbols, strings and names of variables are quoted where needed. A decimal is printed as the rational of the same value with the attribute :decimal. (Symbols that are shadowed or overloaded at the point of the message have no unambiguous name and are exempt.)",
  ["inputs"], "all literals from the boundary sets and all terms up to a depth over a signature",
  "Printing is only exercised by tests' error paths, whose text is not compared.",
  ["src/expr.cpp", "src/literal.cpp", "src/util/bitvector.cpp"],
  [("printing", "src/expr.cpp printDebug; src/literal.cpp toString")])
p("P16", "Datatype declarations give constructors and selectors their declared meaning",
  "A datatype declaration introduces exactly the declared constructors, selectors and updaters with their declared types, for plain, parametric and mutually recursive datatypes; the queries for a datatype's constructors and a constructor's selectors return exactly the declared lists in order, and do not evaluate on anything else.",
  ["inputs", "programs"], "all datatype declarations up to a bounded number of types, constructors, selectors and type parameters, with every query on every symbol and ill-typed uses",
  "The shapes of declarations multiply; tests contain a few common datatypes.",
  ["src/expr_parser.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp"],
  [("datatype parsing", "src/expr_parser.cpp parseDatatypesDef, parseConstructorDefinitionList; src/cmd_parser.cpp"), ("queries", "src/type_checker.cpp EVAL_DT_CONSTRUCTORS, EVAL_DT_SELECTORS")])
p("P17", "Literal normalization and parsing options apply per file kind as documented",
  "The options that normalize decimals, hexadecimals, numerals, or that change how let, binder and rule names are parsed affect exactly the documented kinds of files and literals in proofs and references, leave signature files unaffected unless stated otherwise, and the literal type used for each category is the one declared for it at the time of parsing.",
  ["configurations", "inputs"], "all combinations of the options, each value, across signature, proof and reference files, with all literal kinds",
  "There are hundreds of option and file-kind combinations and tests cover a handful.",
  ["src/main.cpp", "src/state.cpp", "src/literal.cpp", "src/expr_parser.cpp"],
  [("options", "src/state.h Options; src/main.cpp"), ("literal creation", "src/state.cpp mkLiteral")])
p("P18", "Including files behaves as reading them once, in place",
  "Including a file has the effect of reading its commands at that point, exactly once per file however often it is included and however its relative path is spelled (with '.', '..' and repeated '/'); relative paths are resolved against the directory of the including file, those of options against the current directory; at most one file is the reference, and only one that was not read before; a missing file, a directory, an include inside a local assumption scope, or an included file that leaves an assumption scope open is an error; exit ends only the file that contains it.",
  ["histories", "configurations"], "all include graphs up to a few files in a few directories (chains, diamonds, cycles, repeated and differently spelled paths), and includes at each nesting level",
  "Include graphs are combinatorial; tests include one or two files in a line.",
  ["src/state.cpp", "src/base/check.cpp", "src/util/filesystem.cpp"],
  [("include", "src/state.cpp includeFile, markIncluded"), ("paths", "src/util/filesystem.cpp")])
p("P19", "Malformed input is rejected with a located error, never a crash",
  "For every input text and option list the checker ends with a verdict or with an error message, which gives the position when the error is in the text of a file; it never crashes, runs into undefined behaviour, fails an internal assertion or hangs (except for running programs that do not terminate), and never accepts a file whose parentheses or commands are incomplete or that contains a command which is not in the documented grammar of commands.",
  ["inputs", "configurations"], "every truncation, token deletion, duplication, replacement and adjacent swap of a corpus of commands covering the grammar, all short token sequences, every command with each argument replaced by each kind of term",
  "Robustness is a statement about all malformed inputs; tests have few malformed files.",
  ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/lexer.cpp", "src/state.cpp", "src/type_checker.cpp"],
  [("error reporting", "src/lexer.cpp parseError; src/base/check.h EO_FATAL"), ("command parsing", "src/cmd_parser.cpp parseNextCommand")])
p("P20", "Definitions, lets and attributes are transparent abbreviations",
  "A use of a defined symbol, a let-bound or locally defined name or an instantiated macro denotes the term obtained by replacing it with its definition, as it was when it was made, with the actual arguments put for the parameters, simultaneously and without confusing names; a defined name can be used wherever its definition can, in every role, so accepting or rejecting any command is unchanged by expanding it by hand. An annotated term is the term.",
  ["programs", "inputs"], "all definitions with up to a few parameters whose bodies are terms up to a depth, applied to all argument combinations including ones mentioning the parameters' names, nested and parallel lets",
  "Substitution faults need clashing names or nested uses; tests have few of them.",
  ["src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp", "src/type_checker.cpp"],
  [("definitions", "src/cmd_parser.cpp DEFINE; src/state.cpp mkApply for lambda"), ("let", "src/expr_parser.cpp parseExpr LET")])
p("P21", "Implicit, opaque and ambiguous parameters behave as declared",
  "Implicit parameters are never supplied by the user and are determined by the other arguments; opaque arguments are part of the symbol's identity, so that applications with different opaque arguments are different symbols which pattern matching cannot take apart; ambiguous symbols need and honour their type annotation. ",
  ["inputs", "programs"], "all declarations with up to a few parameters and every assignment of the attributes, with all argument combinations and pattern matches on them",
  "Attribute combinations multiply; tests have one example of each.",
  ["src/cmd_parser.cpp", "src/state.cpp", "src/type_checker.cpp"],
  [("declare-parameterized-const", "src/cmd_parser.cpp"), ("opaque application", "src/state.cpp mkApply")])
p("P22", "Dependent signatures are instantiated with the actual arguments",
  "For a symbol whose type mentions its arguments or type parameters (including computed types with side conditions and terminators that depend on parameters), each application's type and terminator are those obtained by substituting the actual arguments and evaluating; when that does not evaluate the application is rejected where a type is needed.",
  ["inputs", "programs"], "bit-vector style signatures over all widths up to a bound, all argument combinations, with terminators and side conditions depending on widths",
  "The instantiations are unbounded; tests use a few fixed widths.",
  ["src/type_checker.cpp", "src/state.cpp"],
  [("dependent typing", "src/type_checker.cpp getTypeAppInternal"), ("terminator computation", "src/type_checker.cpp computeConstructorTermInternal")])
p("P23", "The outcome does not depend on how the input is presented",
  "The same sequence of commands gives the same verdict whether it comes from a file or standard input, in one file or split over includes, with or without statistics and diagnostic output, with any layout of whitespace and comments, and on every repetition.",
  ["configurations", "inputs"], "a corpus of accepted and rejected inputs under every presentation: stdin, file, include, statistics options, each whitespace and comment layout, each split point, repeated runs",
  "Tests run every file in one presentation only.",
  ["src/main.cpp", "src/input.cpp", "src/lexer.cpp", "src/state.cpp"],
  [("input sources", "src/input.cpp, src/lexer.cpp bufferEnd handling"), ("option handling", "src/main.cpp")])
p("P24", "An error is reported at the place of the fault",
  "When a file is rejected, the error names the file that contains the fault, and the line and column (counted from 1) of a token of the command at fault; a message about a particular token or symbol gives the place of that token. The same token is named however the text is laid out in lines, blanks, comments, line endings and multi-line strings and symbols, in whichever included or reference file it is, and however far into the file.",
  ["inputs"], "every rejected one-token edit of every command of a corpus under five layouts, in main, included and reference files; faults in all small trees of included files; faults at all offsets around the ends of input buffers",
  "Tests compare exit codes only, no test looks at the place of an error; places depend on all characters read before.",
  ["src/lexer.h", "src/lexer.cpp", "src/cmd_parser.cpp", "src/expr_parser.cpp", "src/state.cpp"],
  [("position tracking", "src/lexer.h nextChar/bumpSpan, src/lexer.cpp computeNextToken"), ("error reporting", "src/lexer.cpp parseError/unexpectedTokenError"), ("file names", "src/state.cpp includeFile")])
p("P25", "The statistics count every application of a rule exactly once",
  "When statistics are requested (--stats, --stats-all, --stats-compact or the corresponding set-option), they list every proof rule that was used with the number of accepted steps that applied it, and no other rule, in both formats, whatever files, scopes and assumption levels the steps are in, also across resets; --stats-all lists every program that was called, with at least the number of its distinct calls, and no program that was not called. Expressions are counted consistently: no more are deleted than were created, and no more are created than were requested. Without a request nothing is printed but the verdict.",
  ["histories", "configurations"], "all sequences of steps, assumptions, scopes, includes and resets to a depth under all ways to request statistics; numbers of rules and applications; names of rules; recursive programs to a depth",
  "No test looks at the statistics; the counts depend on the whole history of the run.",
  ["src/stats.h", "src/stats.cpp", "src/cmd_parser.cpp", "src/type_checker.cpp", "src/main.cpp", "src/state.cpp"],
  [("counting of steps", "src/cmd_parser.cpp STEP"), ("counting of program calls", "src/type_checker.cpp evaluateProgramInternal"), ("printing", "src/stats.cpp Stats::toString")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P))
