"""A corpus of small scripts covering the commands and term syntax of the
language, accepted and rejected, shared by the robustness and presentation
checks. SIG is a signature (an .eo file); BODY scripts follow it and use no
syntax special to signature files; SIGS scripts are signature-only; REFS are
reference files."""

SIG = """(declare-const Int Type)
(declare-const Real Type)
(declare-const String Type)
(declare-consts <numeral> Int)
(declare-consts <rational> Real)
(declare-consts <string> String)
(declare-const BitVec (-> Int Type))
(declare-consts <binary> (BitVec (eo::len eo::self)))
(declare-parameterized-const = ((A Type :implicit)) (-> A A Bool))
(declare-const not (-> Bool Bool))
(declare-const and (-> Bool Bool Bool) :right-assoc-nil true)
(declare-const or (-> Bool Bool Bool) :right-assoc-nil false)
(declare-const => (-> Bool Bool Bool) :right-assoc)
(declare-const + (-> Int Int Int) :left-assoc-nil 0)
(declare-const < (-> Int Int Bool) :chainable and)
(declare-const distinct (-> Int Int Bool) :pairwise and)
(declare-parameterized-const ite ((A Type :implicit)) (-> Bool A A A))
(declare-parameterized-const Array ((A Type) (B Type)) Type)
(declare-const forall (-> eo::List Bool Bool) :binder eo::List::cons)
(declare-parameterized-const concat ((n Int :implicit) (m Int :implicit)) (-> (BitVec n) (BitVec m) (BitVec (eo::add n m))))
(declare-parameterized-const ext ((n Int :implicit) (h Int :opaque) (l Int :opaque)) (-> (BitVec n) (BitVec (eo::add h (eo::neg l) 1))))
(declare-parameterized-const as-empty ((A Type :implicit)) (Array A A))
(declare-datatypes ((Lst 1)) ((par (X) ((lnil) (lcons (lhead X) (ltail (Lst X)))))))
(declare-const lambda (-> eo::List Int Int) :binder eo::List::cons)
(declare-const a Int)
(declare-const b Int)
(declare-const p Bool)
(declare-const q Bool)
(declare-const f (-> Int Int))
(program $size ((x Int) (y Int :list)) :signature (Int) Int ((($size (+ y x)) (eo::add ($size y) 1)) (($size x) 1)))
(program $neg ((F Bool)) :signature (Bool) Bool ((($neg (not F)) F) (($neg F) (not F))))
(declare-rule and_intro ((F Bool) (G Bool)) :premises (F G) :conclusion (and F G))
(declare-rule and_elim ((Fs Bool) (i Int)) :premises (Fs) :args (i) :conclusion (eo::list_nth and Fs i))
(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))
(declare-rule all_and ((F Bool)) :premise-list F and :conclusion F)
(declare-rule neg_elim ((F Bool) (G Bool)) :premises (F) :args (G) :requires ((($neg F) G)) :conclusion-explicit G)
(declare-rule refl ((A Type) (t A)) :args (t) :conclusion (= t t))
(declare-rule trust ((F Bool)) :conclusion-explicit F :sorry)
(declare-rule lit ((F Bool)) :premises (F) :args (F) :requires (((eo::is_eq F F) true) ((eo::typeof F) Bool)) :conclusion F)
"""

# name -> (list of commands, verdict)
BODY = {
    "empty": ([], "correct"),
    "assume": (["(assume h p)"], "correct"),
    "elim": (["(assume h (and p q))", "(step s q :rule and_elim :premises (h) :args (1))"], "correct"),
    "elim-noconcl": (["(assume h (and p q))", "(step s :rule and_elim :premises (h) :args (0))"], "correct"),
    "elim-wrong": (["(assume h (and p q))", "(step s p :rule and_elim :premises (h) :args (1))"], "reject"),
    "elim-range": (["(assume h (and p q))", "(step s :rule and_elim :premises (h) :args (2))"], "reject"),
    "intro": (["(assume h p)", "(assume g q)", "(step s (and p q) :rule and_intro :premises (h g))"], "correct"),
    "intro-few": (["(assume h p)", "(step s :rule and_intro :premises (h))"], "reject"),
    "list": (["(assume h p)", "(assume g q)", "(step s (and p q p) :rule all_and :premises (h g h))", "(step t true :rule all_and :premises ())"], "correct"),
    "list-order": (["(assume h p)", "(assume g q)", "(step s (and p q) :rule all_and :premises (g h))"], "reject"),
    "scope": (["(assume-push h p)", "(step s :rule lit :premises (h) :args (p))", "(step-pop t (=> p p) :rule scope :premises (s))"], "correct"),
    "scope2": (["(assume-push h p)", "(assume-push g q)", "(step-pop t (=> q p) :rule scope :premises (h))", "(step-pop u (=> p q p) :rule scope :premises (t))"], "correct"),
    "scope-open": (["(assume-push h p)", "(step s :rule lit :premises (h) :args (p))"], "reject"),
    "scope-gone": (["(assume-push h p)", "(step-pop t :rule scope :premises (h))", "(step u :rule lit :premises (h) :args (p))"], "reject"),
    "scope-none": (["(assume h p)", "(step-pop t :rule scope :premises (h))"], "reject"),
    "neg": (["(assume h (not p))", "(step s p :rule neg_elim :premises (h) :args (p))"], "correct"),
    "neg-wrong": (["(assume h (not p))", "(step s q :rule neg_elim :premises (h) :args (q))"], "reject"),
    "sorry": (["(step s q :rule trust)"], "incomplete"),
    "sorry-noconcl": (["(step s :rule trust)"], "reject"),
    "refl": (["(step s (= (f a) (f a)) :rule refl :args ((f a)))", "(step r :rule refl :args ((+ a b 1)))"], "correct"),
    "refl-wrong": (["(step s (= (f a) (f b)) :rule refl :args ((f a)))"], "reject"),
    "norule": (["(step s p :rule nope)"], "reject"),
    "declare": (["(declare-const x Int)", "(declare-const g (-> Int Int))", "(assume h (= (g x) (f a)))"], "correct"),
    "declare-ill": (["(declare-const x Int)", "(assume h (not x))"], "reject"),
    "sort": (["(declare-sort U 0)", "(declare-const x U)", "(declare-sort L 1)", "(declare-const y (L U))", "(assume h (= y y))"], "correct"),
    "sort-mismatch": (["(declare-sort U 0)", "(declare-const x U)", "(assume h (= x a))"], "reject"),
    "dt": (["(declare-datatype T ((nil) (cons (head Int) (tail T))))", "(declare-const l T)", "(assume h (= (tail (cons 1 l)) nil))"], "correct"),
    "dts": (["(declare-datatypes ((T 0) (U 0)) (((mkt (getu U))) ((mku) (mkv (gett T)))))", "(assume h (= (getu (mkt mku)) mku))"], "correct"),
    "dt-bad": (["(declare-datatype T ((nil) (cons (head Int) (tail T))))", "(assume h (= (tail 1) nil))"], "reject"),
    "define": (["(define m ((x Int)) (+ x x))", "(define n () (m a))", "(step s (= (+ a a) n) :rule refl :args ((m a)))"], "correct"),
    "define-type": (["(define m () p :type Bool)", "(assume h m)"], "correct"),
    "define-badtype": (["(define m () p :type Int)"], "reject"),
    "let": (["(assume h (let ((x (+ a b))) (= x x)))", "(step s (= (+ a b) (+ a b)) :rule lit :premises (h) :args ((= (+ a b) (+ a b))))"], "correct"),
    "let2": (["(assume h (let ((x a) (y b)) (let ((x y) (y x)) (< x y))))", "(step s (< b a) :rule lit :premises (h) :args ((< b a)))"], "correct"),
    "let-wrong": (["(assume h (let ((x a) (y b)) (let ((x y) (y x)) (< x y))))", "(step s (< a b) :rule lit :premises (h) :args ((< a b)))"], "reject"),
    "eodefine": (["(assume h (eo::define ((x p)) (and x x)))", "(step s (and p p) :rule lit :premises (h) :args ((and p p)))"], "correct"),
    "forall": (["(assume h (forall ((x Int) (y Int)) (< x y a)))", "(step s (forall ((x Int) (y Int)) (< x y a)) :rule lit :premises (h) :args ((forall ((x Int) (y Int)) (< x y a))))"], "correct"),
    "forall-diff": (["(assume h (forall ((x Int) (y Int)) (< x y)))", "(step s (forall ((y Int) (x Int)) (< x y)) :rule lit :premises (h) :args ((forall ((x Int) (y Int)) (< x y))))"], "reject"),
    "annot": (["(assume h (! (and p q) :named pq))", "(step s (and p q) :rule lit :premises (h) :args (pq))"], "reject"),
    "annot-pat": (["(assume h (! (and p q) :pattern (p (q p))))"], "correct"),
    "as": (["(declare-const x (Lst Int))", "(assume h (= x (as lnil (Lst Int))))", "(assume g (= x (lcons a (as lnil (Lst Int)))))"], "correct"),
    "bv": (["(declare-const x (BitVec 4))", "(assume h (= (concat x #b01) #b000101))", "(assume g (= (ext 2 1 x) #b00))"], "correct"),
    "bv-hex": (["(declare-const x (BitVec 8))", "(assume h (= x #xaF))"], "correct"),
    "bv-width": (["(declare-const x (BitVec 4))", "(assume h (= (concat x #b01) #b00101))"], "reject"),
    "lits": (["(assume h (= 1.5 3/2))", "(assume g (= -3 0))", "(assume i (= \"a\"\"b\\u{41}\" \"\"))", "(assume j (= #b1 #b0))", "(step s (= 3/2 1.5) :rule refl :args (3/2))"], "correct"),
    "arith": (["(assume h (< 0 a b (+ a b 1) 7))", "(assume g (distinct a b 3))"], "correct"),
    "chain": (["(assume h (and (< a b) (< b 1)))", "(step s (< a b 1) :rule lit :premises (h) :args ((< a b 1)))"], "correct"),
    "implies": (["(assume h (=> p q p))", "(step s (=> p (=> q p)) :rule lit :premises (h) :args ((=> p q p)))"], "correct"),
    "eval": (["(step s (= 3 3) :rule refl :args ((eo::add 1 2)))", "(step t (= a a) :rule refl :args ((eo::ite (eo::is_eq p q) b a)))", "(step u (= 3 3) :rule refl :args (($size (+ a b))))"], "correct"),
    "eval-stuck": (["(step s (= 3 3) :rule refl :args ((eo::add a 2)))"], "reject"),
    "ho": (["(declare-const F (-> (-> Int Int) Int))", "(assume h (= (F f) (_ f a)))", "(assume g (= f f))"], "correct"),
    "ite": (["(assume h (ite p q (not q)))", "(assume g (= (ite p a 1) b))"], "correct"),
    "ite-bad": (["(assume h (= (ite p a q) b))"], "reject"),
    "quoted": (["(declare-const |x y| Int)", "(declare-const |z| Int)", "(assume h (= |x y| z))"], "correct"),
    "push": (["(push)", "(declare-const x Int)", "(pop)", "(declare-const x Bool)", "(assume h x)"], "correct"),
    "push-gone": (["(push 2)", "(declare-const x Int)", "(pop 1)", "(pop 1)", "(assume h (= x x))"], "reject"),
    "pop-none": (["(pop)"], "reject"),
    "reset": (["(declare-const x Int)", "(reset)", "(declare-const x Bool)"], "correct"),
    "reset-gone": (["(declare-const x Int)", "(reset)", "(assume h (= x x))"], "reject"),
    "exit": (["(assume h p)", "(exit)", "(assume g nope)"], "correct"),
    "echo": (["(echo \"@hello\")", "(echo \"@a\"\"b\")", "(echo)"], "correct"),
    "option": (["(set-option :normalize-num true)", "(assume h (= 1 2/2))", "(set-option :normalize-num false)", "(assume g (= 1 a))"], "correct"),
    "option-bad": (["(set-option :nope true)"], "correct"),
    "unknown": (["(assume h nope)"], "reject"),
    "unknown-cmd": (["(foo bar)"], "reject"),
    "arity": (["(assume h (not p q))"], "reject"),
    "nonbool": (["(assume h a)"], "reject"),
    "twice": (["(assume h p)", "(assume h p)"], "correct"),
    "consts": (["(declare-consts <decimal> Real)", "(assume h (= 1.0 1.0))"], "correct"),
    "param": (["(declare-parameterized-const pair ((A Type :implicit) (B Type :implicit)) (-> A B Bool))", "(assume h (pair a p))"], "reject"),
    "program": (["(program $id ((x Int)) :signature (Int) Int ((($id x) x)))", "(step s (= a a) :rule refl :args (($id a)))"], "correct"),
    "rule": (["(declare-rule r ((F Bool)) :premises (F F) :conclusion F)", "(assume h p)", "(step s p :rule r :premises (h h))"], "correct"),
    "sel": (["(assume h (= (f (f (f a))) (f b)))", "(step s (= (f (f (f a))) (f b)) :rule lit :premises (h) :args ((= (f (f (f a))) (f b))))"], "correct"),
}
# Type is a symbol in proofs
BODY.pop("param")

SIGS = {
    "const": (["(declare-const U Type)", "(declare-const x U)", "(declare-const g (-> U U))", "(declare-const c (eo::typeof (g x)))"], "correct"),
    "par": (["(declare-parameterized-const pair ((A Type :implicit) (B Type :implicit)) (-> A B Bool))", "(declare-const t (eo::requires (pair a p) (_ pair a p) Bool))"], "correct"),
    "par-req": (["(declare-parameterized-const g ((n Int :requires ((eo::gt n 0) true))) Type)", "(declare-const t (g 1))"], "correct"),
    "par-opaque": (["(declare-parameterized-const sk ((F Bool :opaque)) Int)", "(declare-const t (eo::requires (sk p) (sk p) Bool))"], "correct"),
    "prog": (["(program $t ((T Type) (x T)) :signature (T) Type ((($t x) (eo::typeof x))))", "(declare-const x ($t a))", "(declare-const c (eo::requires (eo::typeof x) Int Bool))"], "correct"),
    "prog-fwd": (["(program $g ((x Int)) :signature (Int) Int)", "(program $h ((x Int)) :signature (Int) Int ((($h x) ($g x))))", "(program $g ((x Int)) :signature (Int) Int ((($g x) x)))", "(declare-const c (eo::requires ($h a) a Bool))"], "correct"),
    "prog-default": (["(program $d ((x Int)) :signature (Int) Bool ((($d 0) true) (($d x) false)))", "(declare-const c (eo::requires ($d 1) false Bool))"], "correct"),
    "define": (["(define $m ((T Type) (x T)) (= x x))", "(declare-const c (eo::requires ($m Int a) (= a a) Bool))"], "correct"),
    "define-none": (["(define $m () (eo::mul 2 3))", "(declare-const c (eo::requires $m 6 Bool))"], "correct"),
    "rule-full": (["(declare-rule r ((F Bool) (G Bool) (n Int)) :premises (F G) :args (n) :requires (((eo::gt n 0) true)) :conclusion (or F G))", "(assume h p)", "(step s (or p p) :rule r :premises (h h) :args (3))"], "correct"),
    "rule-assume": (["(declare-rule r ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))", "(assume-push h p)", "(step-pop s (=> p p) :rule r :premises (h))"], "correct"),
    "assoc": (["(declare-const cat (-> String String String) :right-assoc-nil \"\")", "(declare-const c (eo::requires (cat \"a\" \"b\") (_ cat \"a\" (_ cat \"b\" \"\")) Bool))"], "correct"),
    "assoc-par": (["(declare-parameterized-const bvadd ((n Int :implicit)) (-> (BitVec n) (BitVec n) (BitVec n)) :right-assoc-nil (eo::to_bin n 0))", "(declare-const x (BitVec 2))", "(declare-const c (eo::requires (bvadd x x) (_ bvadd x (_ bvadd x #b00)) Bool))"], "correct"),
    "argl": (["(declare-const list (-> eo::List Int) :arg-list eo::List::cons)", "(declare-const c (eo::requires (list a b) (_ list (eo::List::cons a b)) Bool))"], "correct"),
    "overload": (["(declare-const - (-> Int Int Int))", "(declare-const - (-> Int Int))", "(declare-const c (eo::requires (eo::typeof (- a)) Int Bool))", "(declare-const d (eo::requires (eo::typeof (- a b)) Int Bool))"], "correct"),
    "ops": (["(declare-const c (eo::requires (eo::and true false) false Bool))", "(declare-const d (eo::requires (eo::concat \"a\" \"b\") \"ab\" Bool))", "(declare-const e (eo::requires (eo::extract #b0110 1 2) #b11 (BitVec (eo::len #b01))))"], "correct"),
    "lists": (["(declare-const c (eo::requires (eo::list_concat or (or p) (or q)) (or p q) Bool))", "(declare-const d (eo::requires (eo::list_len or (or p q)) 2 Bool))", "(declare-const e (eo::requires (eo::nil or Bool) false Bool))"], "correct"),
    "dtq": (["(declare-datatypes ((L 1)) ((par (X) ((nil) (cons (head X) (tail (L X)))))))", "(declare-const c (eo::requires (eo::dt_selectors cons) (eo::List::cons head tail) Bool))"], "correct"),
    "quote": (["(declare-const w (-> (! Bool :var x) Bool))", "(declare-const c (eo::typeof (w p)))"], "correct"),
    "types": (["(declare-const x (eo::typeof a))", "(declare-const c (-> (-> Int Int) Bool Int))", "(declare-const d (-> (eo::requires 1 1 Int) Int))"], "correct"),
    "err-type": (["(declare-const x nope)"], "reject"),
    "err-nokind": (["(declare-const x a)"], "reject"),
    "err-case": (["(program $z ((x Int)) :signature (Int) Int ((($z y) x)))"], "reject"),
    "err-req": (["(declare-const c (eo::requires 1 2 Bool))"], "reject"),
    "err-arity": (["(declare-rule r ((F Bool)) :premises (G) :conclusion F)"], "reject"),
}

REFS = {
    "full": (["(set-logic ALL)", "(set-info :status unsat)", "(declare-fun x () Int)", "(declare-fun g (Int Int) Int)", "(declare-const y Int)", "(declare-sort U 0)",
              "(define-sort I () Int)", "(define-fun m ((z Int)) Int (+ z 1))", "(define-const k Int 3)", "(assert (= (g x y) 1))", "(assert (! (not p) :named np))", "(assert (let ((w x)) (= w w)))", "(check-sat)", "(check-sat-assuming (p))", "(exit)"], "correct"),
    "small": (["(assert p)", "(assert (and p q))"], "correct"),
}


def lexemes(text):
    """the lexemes of a text without comments"""
    out, i = [], 0
    while i < len(text):
        ch = text[i]
        if ch.isspace():
            i += 1
        elif ch in "()":
            out.append(ch)
            i += 1
        elif ch == "|":
            j = text.index("|", i + 1)
            out.append(text[i:j + 1])
            i = j + 1
        elif ch == '"':
            j = i + 1
            while True:
                j = text.index('"', j)
                if text[j:j + 2] == '""':
                    j += 2
                    continue
                break
            out.append(text[i:j + 1])
            i = j + 1
        else:
            j = i
            while j < len(text) and not text[j].isspace() and text[j] not in '()"|':
                j += 1
            out.append(text[i:j])
            i = j
    return out


def commands(text):
    """splits a text into its top-level commands"""
    out, depth, cur = [], 0, []
    for t in lexemes(text):
        cur.append(t)
        depth += (t == "(") - (t == ")")
        if depth == 0:
            out.append(join(cur))
            cur = []
    return out


def join(ts):
    s = ""
    for t in ts:
        if s and s[-1] != "(" and t != ")":
            s += " "
        s += t
    return s
