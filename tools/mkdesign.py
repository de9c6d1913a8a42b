import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
T={p['id']:p['title'] for p in props}
D={}
D['P01']=("""Model: first order matching of the rule's argument, assumption and premise patterns (left to right, one joint substitution), evaluation of the requirements, instantiation of the conclusion, equality with the claim.
Enumerated: 53 rules covering every form of declaration (no/one/many args, premises, premise lists over right-assoc-nil, left-assoc-nil, non-singleton and non-nil operators, requirements, explicit conclusions, computed conclusions) x all argument tuples over 18 terms x all premise tuples over 15 proven formulas, up to one more than the arity, x no claim / the right claim / every claim of a set; 17 first steps x all rules (what a step proves is what the next one may use, and nothing else); every rule whose pattern is a term up to depth 2 over {x,y,a,f,g} (so: every repetition of variables and compound subpatterns) as argument, premise, or both, on every ground term up to depth 2; misuse of names (premises that are terms, rules used as terms ...).
Oracle: accept + a checking step that reuses the conclusion as a premise, or reject.""",
"argument types that differ from the parameter's type are not judged (neither manual nor tests define it)")
D['P02']=("""Model: a stack of scopes, each with its assumption, the names bound in it and the proofs available. Breadth first search over commands (assume, assume-push, step, step-pop, push, pop, declare, define, use of every name after it left scope), every edge of the search is a replayed history that is accepted iff the model accepts every command and ends outside of every scope. Full alphabet to length 3, last command from the full alphabet at length 5 (thorough deeper), nesting to 100 by family.""",None)
D['P03']=("""Model: (asserted set after normalization or 'no reference', included files, scope depth). All histories of include / reference / assume / assume-push / step / step-pop to length 3 (last command from the full alphabet at 4, thorough 5), crossed with 39 ways of giving the reference and the input (option or command, before or after includes, file or stdin). Accepted iff each assumption that is not opened as local is in the model's normalized set.""","numeric normalization inside a reference follows P17")
D['P04']=("""Model: (was an unproven rule used, scopes open, ended). All command sequences to length 3 over 32 commands and length 4 over 10 (thorough: longer) in six presentations (file, stdin, include, with stats, signature file, ...). The complete output must be the one verdict line, or an error without one; exit status checked.""",None)
D['P05']=("""Model: `mc/lits.py`, the documented meaning of each operator on unbounded integers, rationals, (width,value) pairs, code point sequences. Every operator on every tuple: bit-vectors of width <= 5 (all), boundary values at widths to 256 (word/limb boundaries), integers in [-9,9] and +-2^k+{-1,0,1} to k=128, rationals over those, strings to length 4 over two letters and special characters, and mixed categories. Each is decided by `(eo::requires (op args) value Bool)`, or by is_ok = false when the model says stuck.""","integer division and modulus follow the Euclidean convention that code and tests use")
D['P06']=("""Model: Python lists. Every list operation on every list (pairs) up to length 5 (3) over three elements, for 7 operators (right/left associative, constant and type dependent terminators, elements that are lists or nil themselves), every index, and non-lists; lists of up to 100 by pattern.""",None)
D['P07']=("""Model: an interpreter of ordered rewrite rules over explicit terms, with higher order application patterns. Enumerated: all programs of 2 cases over 21 patterns (3 cases over 14), all patterns to depth 2 over {x,y,a,f,g} followed by a default on all terms to depth 2, patterns with repeated compound subpatterns in two arguments, all bodies of a set (calls, conditionals, requirements, recursion) over all patterns and base cases, 2- and 3-argument programs, literals, recursive library programs against closed forms (lists, substitution, Fibonacci, Ackermann, depth to 300000), all places a call can be evaluated in, all orders of earlier evaluations, which definitions are legal.""","programs that do not terminate are skipped (model fuel)")
D['P08']=("""Model: an evaluator over explicit terms in which a failed evaluation is a value. All core operators on 29 atoms and 4 stuck terms; depth 2 (3 for unary and in thorough) over 36 representative inner terms; each observed directly, in a let, a macro, a program body, a rule conclusion and a rule requirement.""",None)
D['P09']=("""Model: the explicit curried term that the manual prescribes for each annotation. 1..35 arguments (100 by family), all argument tuples up to 4 over {plain, nil, nested}, all subsets of list marked parameters x all instantiations in macros, programs, rules; binders with every kind of variable list; argument lists.""","(ch x) for a chainable symbol whose combining operator is not an operator with terminator is not defined by the manual")
D['P10']=("""Model: first order matching of argument types against the declared (curried) scheme, literal arithmetic in dependent types. 30 heads x all tuples over 26 base terms up to arity+1, and over 26 compound terms; every command slot that requires a type x all kinds of terms.""","the argument types of calls of programs, and the bodies of programs and rules, are not type checked by design (manual)")
D['P11']=("""Model: a stack of scopes with bindings; an application denotes the innermost visible binding that type checks. (1) all histories of declarations/definitions/overloads/scopes of length 4-5, every name probed after every command; (2) all terms of nested lets, binders, parameters to a depth; qualified identifiers.""","the manual says the first declared overload wins; code and tests agree on the last one, which is what the model uses")
D['P12']=("""Model: an independent scanner of the lexical grammar. Every text of up to 4 (thorough 5) characters over the lexical alphabet; all string bodies and escape forms; all numeric forms; each byte value in 20 contexts; every token class at every offset around the boundary of the input buffer; from file and stdin.""",None)
D['P13']=("""Model: the list of terms and observations in force. All histories of hold / build / discard / hash / compare / push / pop / local assumption / reset over 13 kinds of terms up to depth 2-3 (4 on pairs and triples); up to 10000 terms created and discarded in between; all orders of creation, discarding and observation; and histories inside one evaluation: every sequence of 3 helper calls (3 constructors x up to 6 ways to keep or drop the result x 2 arguments) in 4 combinations. Every state re-observes everything: identity, inequality, hash, order, type, evaluation. Run with library assertions and (bounded) under ASan/UBSan.""","memory errors are those the sanitizers detect")
D['P14']=("""Model: resolution of names to (name, type) of the innermost binder; two terms are the same iff the resolved forms are. All surface terms with up to 3 nested binders over 2 names x 2 types x all variable lists, all pairs compared by the checker, directly and after construction in macros, programs, rules, references, local definitions.""","variable lists in which a type mentions an earlier variable of the list, or with duplicate names, are not judged")
D['P15']=("""Model: the term itself. Every literal, name, term, type and computation of the bounded sets is printed by the real checker in an error message, the message is read back with the same declarations and must denote the identical term; with and without --print-dag; pairwise different literals print differently.""","decimals print as `(! 3/2 :decimal)`; names containing |, shadowed or overloaded ones are exempt")
D['P16']=("""Model: instantiation of the declared signature by matching. All datatype declarations with <= 3 datatypes, 2 parameters, 3 constructors, 2 fields from a pool of field types (families to 40 constructors / 12 fields); every introduced symbol (constructor, selector, updater, tester via queries) applied to every tuple of up to 7 ground types; eo::dt_constructors / eo::dt_selectors on types, instances, constructors, ambiguous constructors and other terms.""",None)
D['P17']=("""Model: for each open file its kind and for each option its value. All assignments of the 4 normalization options (unset/off/on) in 19 ways to read a file, 21 literal texts, all interleavings of set-option and observation to length 3 (4), parse-let / binder-fresh / rule-sym-table likewise.""","--no-rule-sym-table makes rule names usable as terms (unspecified, not judged)")
D['P18']=("""Model: an interpreter of a file tree (files read, stack of open files, scopes, lexical canonicalization of paths) that predicts the complete trace of echo messages and the verdict. All path spellings to a length, all include graphs to a size (incl. cycles, self includes, diamonds), ways to start, interleavings of scopes and includes; directories, missing files.""","path canonicalization is lexical (symbolic links are not judged)")
D['P19']=("""Monitor: the run ends with a verdict or an error whose position lies in a file given, no crash, sanitizer report, failed assertion or timeout, and no acceptance of unbalanced text or of a command that a recognizer of the documented grammar (mc/grammar.py) refuses. Inputs (all of them, none sampled): every prefix/suffix of a corpus covering the language, every one-token edit at every position (deletion, duplication, swap, replacement, insertion over a token set), all short commands over a token set, every builtin operator x argument kinds x arities 0..5, every byte value in the lexical contexts, option lists. Run on builds with internal assertions, libstdc++ assertions and ASan+UBSan.""","a type rule error of set/getTypeRule has no position (allow-listed by message); (push 4294967295) and the like are legal but resource hungry and not judged")
D['P20']=("""Model: an evaluator with closures and lexically scoped environments over surface syntax (macros, parallel lets, binders, n-ary operators, computation). All macro bodies of depth <= 2 with 1-2 parameters, towers of three macros with permuted names (capture), nested lets, aliases in every role (type, operator, constructor, rule, program, binder, terminator), annotations, eo::define, define with types; each compared with its hand expansion.""","a macro applied to a wrong number of arguments gives a warning, its meaning is not judged")
D['P21']=("""Model: a declaration is a list of parameters with types and attributes; opaque applications are leaves, implicit parameters are determined by matching. All declarations with <= 3 (4) parameters over Type, base, parametric and dependent types with every attribute assignment and return type, all argument tuples over a small typed universe, all pairs of applications (identity), programs that try to take them apart; ambiguous symbols with every annotation.""",None)
D['P22']=("""Model: type and terminator expressions are trees over the parameters, applied by matching, substitution and evaluation with the mathematical meaning. All expressions of a bounded grammar, widths 0..3 (17) and symbolic, 7 parameter shapes, terminators x annotations x instances through macros/programs/list operations, nested bit-vector terms, rules over widths, types of literals that depend on their value, all parameter types x arguments of all types in quoted/opaque/implicit/paired positions.""","a terminator that is stuck but typed may occur in an accepted term; only that it is never replaced by a value is judged")
D['P23']=("""Model: a script is its sequence of commands with its verdict and messages. All presentations are enumerated for every script of a corpus: all subsets of output options, all sources, all splits in two/three files, all layouts of whitespace and comments at token boundaries, repeated runs; each must give the model's outcome.""",None)
D['P24']=("""Model: a script is its sequence of tokens with their places, computed by a layout function. All one-token edits of all commands of the corpus are rendered under five layouts (one line per command, one token per line, comments/CRLF/tabs/multi-line strings and symbols, no blanks, long lines) and run; when rejected, the place reported must be the start of a token of the edited command, of the token the message quotes, and the same token under all layouts. The same in included and reference files; all trees of three files with up to 3 (4) items; all offsets around buffer ends for eight kinds of text before the fault.""",None)
D['P25']=("""Model: a run is the sequence of its accepted commands; the count of a rule is the number of its steps. All sequences of <= 5 (6) of 14 commands (steps with and without stated conclusions, step-pop, push/pop, include, reset) in 10 ways to request statistics; 0..10000 applications, 0..59 rules, rule names that resemble internal ones; calls of recursive programs to depth 24 (59).""",None)
out=[]
w=out.append
w("""# Design

## Approach

Everything is decided by one technique: **bounded explicit-state model
checking of an independent reference model, with every explored transition
replayed on the implementation**. The ethos checker is a sequential,
deterministic interpreter; what its tests cannot settle is the product of
*inputs* (terms, patterns, rules, texts, options) and *histories* (sequences of
commands, scopes, includes, evaluations, discarded terms). So for each
property there is

1. a **model** written from the manual (`user_manual.md`) in Python
   (`checks/pNN.py`, shared parts in `mc/terms.py`, `mc/lits.py`): a small
   state machine or interpreter that says for each state and command what must
   happen (accept / reject / exact value / exact output),
2. an **exhaustive enumeration** of the model's behaviours within stated
   bounds (all sequences up to a depth, all terms of a grammar up to a depth,
   all tuples over a universe); nothing is sampled and there is no random
   choice, `VERIF_SEED` is not used,
3. a **conformance replay** of every trace on the real code: `mc/engine.py`
   builds /repo/src from the current working tree (three builds: release;
   debug with the checker's own assertions and libstdc++ assertions;
   ASan+UBSan), links it with `runner/mcrun.cpp`, a server that forks one
   process per case, feeds it files, options and standard input in a scratch
   directory, with limits for time, memory and output, and returns verdict,
   exit status and messages. A divergence between model and implementation is
   the violation; it is minimized to one case in `replays/` together with the
   command that replays it (`python3 -m mc.replay FILE`).

The model is therefore bound to the code on each state explored, and a change
of the code which changes behaviour anywhere inside the bounds is seen, while
a refactoring is not (the only interface is: text in, verdict and messages out;
messages are matched only where the property is about them: P04, P15, P18,
P19, P23).

How a single accepted run decides many transitions: positive observations
(`(eo::requires LHS RHS Bool)` is a type iff LHS evaluates to RHS) are checked
in bulk, hundreds per process, and re-run one by one when a file fails;
negative observations (must be rejected) need one process each (about 5000/s
on 8 cores; 400/s under sanitizers).

What bounds mean here: the *small scope*. Depth 2 terms over two variables and
three function symbols contain each way of repeating variables and compound
subterms twice; histories of length 3-5 contain each ordered triple of command
interactions. Larger sizes are covered by families: `mc/scale.py` gives for 18
checks all sizes 1..20, around each power of two up to 512 (thorough 4096) and
around the internal limits known from the code (255/256/257 arguments, the
32768 byte input buffer, 32/64 bit limbs), so that thresholds (buffers,
recursion, counters, limbs) are crossed; at a fixed shape, every size of the
list is run.

Tools not used: SPIN/TLC/Apalache were considered for the scope and include
protocols (P02, P03, P11, P18), but the transition relations are small enough
that a Python model enumerates them completely, and using the same language
for the model and the replay avoids a second translation that would have to be
trusted. CBMC on the sources would be symbolic execution, another family.
Exploration of thread interleavings does not apply (the program is
sequential), and crash points do not either (it writes no state).

The sources of evidence written by each run (`evidence/PNN.json`): number of
distinct model states, transitions, traces replayed, processes executed,
verdicts observed, the families and bounds, and sample traces.

## Layout

- `properties.jsonl`, `MANIFEST.json`, `known_findings.json`: generated by
  `tools/mkprops.py`, `tools/mkmanifest.py`, `tools/mkfindings.py`
- `mc/`: engine (builds, execution, verdicts, evidence, findings), models
- `runner/mcrun.cpp`: the harness linked with the checker's objects
- `checks/pNN.py`: one check per property, `--thorough` for the deep bounds
- `seeded/`: planted changes; `tools/plant.py`, `tools/catch.py` (by hand)

No hooks are needed in /repo: MANIFEST `hooks` is empty.

## Properties: specification, enumeration, oracle, bounds
""")
def ev(p):
    try: return json.load(open(V+'/evidence/%s.json'%p))
    except Exception: return None
cost=json.load(open(os.path.join(V,'tools/cost.json')))
for p in sorted(D):
    w("### %s. %s\n"%(p,T[p])); w(D[p][0])
    if D[p][1]: w("Assumption: "+D[p][1]+".")
    if p in cost: w("Cost: "+cost[p])
    w("")
for p in sorted(T):
    if p not in D: w("### %s. %s\n(see check docstring)\n"%(p,T[p]))
w("""## Why this reaches what the tests cannot

The repository's tests are about 170 fixed scripts. None of the defects
below was visible to them, and each planted change in `seeded/` passes all of
them. The checks run between 10^4 and 10^6 transitions per property, chosen by
exhaustion of a grammar instead of by the author's imagination; the pairs of
features that interact wrongly (a reset after an unproven step, an include
after a reference, a discarded term that is rebuilt, a pattern that repeats a
compound subpattern) all lie within small bounds.

## Genuine defects found

All were reproduced on the real checker, are small, and were repaired by
`fix:` commits (identical list in `known_findings.json`); no finding is left
unrepaired.
""")
for f in json.load(open(V+'/known_findings.json'))['findings']:
    w("- %s: %s"%(f['id'],f['what'].replace('fixed: property=','')))
w("""
## False alarms met, and what was done

- P01: expected steps with arguments of a type other than the parameter's to be
  refused; neither the manual nor the tests say so: not judged.
- P05: zdiv/zmod were modelled as floor; code and tests use the Euclidean
  convention: model corrected. Bitwise comparison of bit-vectors likewise.
- P09/P20: `(m x)` with the wrong number of macro arguments: a warning, no
  defined meaning: not judged.
- P10: types of the arguments of program calls and the bodies of programs are
  not checked by design: model corrected.
- P11: overload order (see below): model follows code and tests.
- P14: duplicate variables in a list: meaning undefined, not judged.
- P19: two errors of type rules are reported without position, since they are
  raised outside of the parser: allowed by message text.
- P22: a terminator that is stuck but typed is accepted in terms: only that it
  never becomes a value is judged.
- Time limits are generous (20 s and more for runs of milliseconds) and cases
  that time out are run again alone, so that a loaded machine does not raise
  an alarm.

## Where the manual and the code disagree (not counted as defects)

- overloads: manual: first declared wins; code and tests: last bound that is
  well typed. zdiv/zmod: 'floor' vs Euclidean. `eo::gt` on bit-vectors is
  unsigned comparison. Declared types of implicit parameters are not enforced.
- `eo::var` with code points above 255 uses escape text. `eo::len` is not
  defined on hexadecimals. Examples of set-option lack the colon.
  `:let-binder` and include-once are not documented.
- `(eo::as const T)`, numerals inside the typing rule of numerals, and partial
  polymorphic applications are unspecified.

## Planted changes

Each compiles, passes the 170 tests and breaks one property under special
conditions only (`seeded/<id>/meta.json` says which). Written from the
property and the code, then run against the checks; a miss led to a stronger
check.
""")
w("| change | property | needs | caught by |\n|---|---|---|---|")
NOTE=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=d.split('/')[-2]; m=json.load(open(d))
    w("| %s | %s | %s | %s |"%(i,m['property'],m['needs'].replace('|','\\|').replace('\n',' '),NOTE.get(i,m['property'])))
w("""
Misses that led to stronger checks:

- p07-shared-pattern (repeated compound subpattern): P07 had patterns that
  repeat variables only. Now all patterns up to depth 2, and P01 likewise.
- p13-eval-cache-results (a cached result of a program is a discarded term):
  P13 had histories over commands only. Now histories inside one evaluation.
- p04-only-proven (256 uses of an unproven rule), p07-context-survives (a
  program with five arguments), p23-small-reads (file of 32769 characters): the
  families of sizes now vary the number of uses, the argument at which a case
  fails, and put each of the last characters at the buffer boundary.
- p10-quoted-apply (parameter of compound type in the result type): heads with
  such parameters were added to P10.
- p18-two-levels (`../../x` from a subdirectory): P18 always ran in the root of
  its file tree. It now also runs in subdirectories, which found F52.
- p19-zero-denominator (`1/00`): P19 had a fixed list of literals; now all
  texts that begin like one, up to length 4 (5).
- p22-quoted-type (types of quoted arguments not compared unless one is
  `Type`): now all parameter types x arguments of all types.
- p03-stuck-normal-form: normalizers that are undefined on some formulas were
  added to P03. p04-attribute-value: all sequences of three rule attributes.
  p06-palindrome: lists over two elements up to length 8 (11).
  p20-sort-parameters: definitions of sorts and functions with up to four
  parameters in all orders. p21-implicit-one: implicit parameters of macros in
  all positions. p23-crlf-comment: comments with every character.
- A sixth round (21 planted, 7 missed): p01-shared-requirement: all lists of up
  to three requirements over shared sides. p03-oriented: every pair of 120
  formulas asserted and assumed. p06-diff-tail: exceptional elements at every
  position. p07-last-stuck: stuck arguments at every position of calls of up
  to six arguments. p09-two-list-args: every sequence of two (marked or
  unmarked) parameters. p16-second-parametric: three and four parameters.
  p20-typed-define: macros of up to three parameters against every type.
- A seventh round (9 planted, 3 missed): p13-literal-order: literals of every
  two kinds with the same value, widths up to 516 (1096). p12-par-prefix: names
  made of a reserved word and up to two further characters anywhere.
  p22-find-type: every operator in the type of a dependent constant, against
  every type, at every literal.
""")
extra=V+'/tools/design_extra.md'
if os.path.exists(extra): w(open(extra).read())
open(V+'/DESIGN.md','w').write("\n".join(out)+"\n")
