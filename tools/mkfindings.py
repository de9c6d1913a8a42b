"""Writes known_findings.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("P03", "a89fd2d", "including a signature after a reference file disabled the validation of assumptions"),
 ("P03", "7ab9f72", "a reference to an already included file, or a second reference, was silently ignored"),
 ("P03", "7cd54fb", "an assumption made inside a local scope was not validated against the reference"),
 ("P02", "6786db4", "an input read from stdin that leaves an assumption scope open was accepted"),
 ("P06", "d674579", "list operations on left associative operators reversed the order of children"),
 ("P07", "825e865", "the body of a program case that is a ground program application was not evaluated"),
 ("P05", "7074976", "eo::extract on a bit-vector with a position equal to the width evaluated to a wrong value"),
 ("P15", "6339396", "hexadecimal literals were printed without their leading zeroes"),
 ("P05", "ad635e0", "eo::to_str evaluated on numerals that are not code points"),
 ("P12", "11517b7", "whitespace and control characters were dropped from string literals"),
 ("P12", "13619ff", "symbols such as -/5 were read as rational literals"),
 ("P12", "16a4fe3", "the character following a keyword of a single letter was dropped"),
 ("P06", "48c1109", "list operations evaluated on arguments that failed to evaluate"),
 ("P09", "f10180e", "an associative operator without terminator applied to one argument lost its operator"),
 ("P11", "5342b1a", "binding a name to an existing term marked that term as overloaded, so that it could denote another symbol later"),
 ("P02", "97bcc48", "push and pop misaligned with assumption scopes let a local assumption survive its step-pop"),
 ("P19", "8300c62", "declare-rule inside the scope of a push failed an internal assertion"),
 ("P03", "be3b792", "the definition asserted by a define-fun with arguments in a reference could not be assumed"),
 ("P19", "3afa6fa", "define-fun with arguments crashed when the symbol lambda is not a binder"),
 ("P13", "1ae5213", "removing a discarded term from the expression trie wrote to a freed node and lost the data of other terms"),
 ("P11", "f201e84", "after a reset the builtin symbols were missing and stale overloads were in force"),
 ("P19", "1499181", "an included file that leaves an assumption and further scopes open led to an out-of-bounds read"),
 ("P12", "16368e0", "the byte 0xFF in a file was taken for its end, so that the rest of the file was ignored"),
 ("P18", "db0f6be", "including something that cannot be read, such as a directory, was accepted"),
 ("P08", "b9848f7", "eo::var and eo::nameof altered names with backslashes, control and non-ASCII characters"),
 ("P13", "5bf4cd2", "eo::hash and eo::cmp gave different results for a term that was discarded and constructed again"),
 ("P10", "99fcd93", "function types over terms that are not types, such as (-> U a), were accepted"),
 ("P11", "8be20d3", "a name defined as an overloaded symbol denoted another symbol once that was declared again"),
 ("P11", "2170526", "an application of a macro whose name was bound before was not expanded"),
 ("P12", "25508c7", "quoted symbols and strings were cut short at a null character, so that different names denoted the same symbol"),
 ("P16", "c1facdc", "the name of a parametric datatype declared by declare-datatype was not bound after the declaration"),
 ("P16", "b79f84d", "declare-datatypes with fewer definitions than names was accepted"),
 ("P19", "8dc26e8", "a closing parenthesis where a term is expected accessed an empty stack"),
 ("P19", "5803b16", "a closing parenthesis was taken for an s-expression, so that unbalanced commands were accepted"),
 ("P19", "7ab3a0f", "negative and too large numerals in push, declare-sort and declare-datatypes wrapped around (hang)"),
 ("P19", "e864f26", "unknown or repeated keywords at the end of a step were ignored"),
 ("P01", "deb8bbe", "a step without premises of a rule whose premise list operator has no attributes crashed"),
 ("P19", "31b3588", "calling a program that is declared but not defined failed an internal assertion"),
 ("P17", "9594480", "the option parse-let had no effect on the file which sets it"),
 ("P21", "f643bfc", "a parameter that only occurs in the type of a later opaque argument was not bound to its argument"),
 ("P19", "2f5a2a9", "a step that provides nothing to a rule with premises or arguments failed an internal assertion"),
 ("P19", "76ecd53", "eo::extract with two arguments read out of bounds"),
 ("P19", "691893d", "(->) and (_) crashed"),
 ("P19", "53b2604", "an operator with a wrong number of arguments that is evaluated in a program read out of bounds"),
 ("P14", "5e1d2e3", "the name of a bound variable of parameterized type was read with escape sequences"),
 ("P13", "1b97e85", "the declared types of literals survived a reset, so that they could not be declared again"),
 ("P15", "f4494b3", "symbols that look like negative literals or contain backslashes were printed without quotes"),
 ("P15", "7ba0b28", "string literals with quotes or non-printable characters and names of variables were printed unreadably"),
 ("P15", "4dc748a", "partial applications of n-ary symbols were printed such that they are desugared when read"),
 ("P15", "0c4fcff", "opaque applications with several arguments, eo:: symbols with spaces and applied variables were printed unreadably"),
 ("P18", "c75031b", "chains of about 250 nested include commands overflowed the stack"),
 ("P18", "cd0e90d", "a file named by a relative path that leads upwards, or by an absolute path, was included again when named differently"),
 ("P10", "27fd206", "the type of an unevaluated eo::cons was the type of its element instead of the type of the list"),
("P11", "879512d", "the terminator of an overloaded operator was inferred from the parameters of another symbol of that name"),
("P15", "3079f6c", "a printed term was captured by the names given to its shared subterms"),
("P14", "19d0e11", "a variable of a let binder was not in scope when its type mentioned a type parameter"),
("P19", "4099eae", "a datatype declaration without constructors was accepted"),
("P25", "b95e983", "statistics requested with set-option lacked the calls of programs and the times of rules"),
]
KNOWN = []
json.dump(dict(findings=KNOWN + [dict(id="F%02d" % (i + 1), property=p, status="fixed", commit=h, keys=[],
     what="fixed: property=%s %s %s" % (p, h, w)) for i, (p, h, w) in enumerate(FIXED)]),
     open(os.path.join(V, "known_findings.json"), "w"), indent=1)
