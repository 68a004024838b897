------------------------------- MODULE Types -------------------------------
(* C++ types: how they are formed, what they are named, and what the type    *)
(* introspection helpers say of them.                                        *)
(* A type: n (named), i (a template's value argument), t (template instance),*)
(* p (pointer), l, r (references), a (array, 0: unknown bound), f (function),*)
(* m (pointer to member of a class).  c and v: const and volatile.           *)
EXTENDS Integers, Sequences, TLC
Named(s)       == [k |-> "n", n |-> s, c |-> FALSE, v |-> FALSE]
IsCls(t)       == t.k \in {"n", "t"}
HasCv(t)       == t.k \in {"n", "t", "p", "m"}
IsVoid(t)      == t.k = "n" /\ t.n = "void"
IsRef(t)       == t.k \in {"l", "r"}
IsFun(t)       == t.k = "f"
Abominable(t)  == IsFun(t) /\ (t.c \/ t.v \/ t.ref # "")
RECURSIVE AddC(_), AddV(_), DropCv(_)
AddC(t) == IF HasCv(t) THEN [t EXCEPT !.c = TRUE] ELSE IF t.k = "a" THEN [t EXCEPT !.of = AddC(t.of)] ELSE t
AddV(t) == IF HasCv(t) THEN [t EXCEPT !.v = TRUE] ELSE IF t.k = "a" THEN [t EXCEPT !.of = AddV(t.of)] ELSE t
DropCv(t) == IF HasCv(t) THEN [t EXCEPT !.c = FALSE, !.v = FALSE] ELSE IF t.k = "a" THEN [t EXCEPT !.of = DropCv(t.of)] ELSE t
Referred(t) == IF IsRef(t) THEN t.of ELSE t
CanPtr(t) == ~Abominable(Referred(t))
Ptr(t) == [k |-> "p", of |-> Referred(t), c |-> FALSE, v |-> FALSE]
CanRef(t) == IsRef(t) \/ (~IsVoid(t) /\ ~Abominable(t))
LRef(t) == [k |-> "l", of |-> Referred(t)]
RRef(t) == IF IsRef(t) THEN t ELSE [k |-> "r", of |-> t]
\* complete: its size is known
Incomplete == {"Inc", "N::Hidden"}
RECURSIVE Complete(_)
Complete(t) == CASE t.k = "n" -> ~IsVoid(t) /\ t.n \notin Incomplete
                 [] t.k = "a" -> t.n > 0 /\ Complete(t.of)
                 [] t.k = "f" -> FALSE
                 [] OTHER -> TRUE
CanArr(t) == ~IsRef(t) /\ Complete(t)
Arr(t, n) == [k |-> "a", n |-> n, of |-> t]
\* functions: parameters lose their cv, arrays and functions become pointers
CanPar(t) == ~IsVoid(t) /\ ~Abominable(t)
Adjust(t) == IF t.k = "a" THEN Ptr(t.of) ELSE IF IsFun(t) THEN Ptr(t) ELSE DropCv(t)
CanRet(t) == t.k # "a" /\ ~IsFun(t)
\* the qualifiers of a returned non-class type are kept by the language, and dropped by no one
Fun(r, ps) == [k |-> "f", of |-> r, ps |-> [i \in DOMAIN ps |-> Adjust(ps[i])], c |-> FALSE, v |-> FALSE, ref |-> "", nx |-> FALSE]
Qual(t, c, v, ref, nx) == [t EXCEPT !.c = c, !.v = v, !.ref = ref, !.nx = nx]
CanMem(t) == ~IsRef(t) /\ ~IsVoid(t)
Mem(cls, t) == [k |-> "m", cls |-> cls, of |-> t, c |-> FALSE, v |-> FALSE]
Tmpl(n, as) == [k |-> "t", n |-> n, as |-> as, c |-> FALSE, v |-> FALSE]
Value(s) == [k |-> "i", n |-> s]

\* its name, without spaces
Cv(t) == (IF t.c THEN "const" ELSE "") \o (IF t.v THEN "volatile" ELSE "")
RECURSIVE Decl(_, _), List(_, _)
List(ts, i) == IF i > Len(ts) THEN "" ELSE Decl(ts[i], "") \o (IF i < Len(ts) THEN "," ELSE "") \o List(ts, i + 1)
Around(of, s) == IF of.k \in {"a", "f"} THEN "(" \o s \o ")" ELSE s
Decl(t, s) ==
  CASE t.k = "n" -> Cv(t) \o t.n \o s
    [] t.k = "i" -> t.n
    [] t.k = "t" -> Cv(t) \o t.n \o "<" \o List(t.as, 1) \o ">" \o s
    [] t.k = "p" -> Decl(t.of, Around(t.of, "*" \o Cv(t) \o s))
    [] t.k = "m" -> Decl(t.of, Around(t.of, t.cls \o "::*" \o Cv(t) \o s))
    [] t.k = "l" -> Decl(t.of, Around(t.of, "&" \o s))
    [] t.k = "r" -> Decl(t.of, Around(t.of, "&&" \o s))
    [] t.k = "a" -> Decl(t.of, s \o "[" \o (IF t.n = 0 THEN "" ELSE ToString(t.n)) \o "]")
    [] t.k = "f" -> Decl(t.of, s \o "(" \o List(t.ps, 1) \o ")" \o Cv(t) \o t.ref \o (IF t.nx THEN "noexcept" ELSE ""))
Name(t) == Decl(t, "")

\* where types start from, and how they grow
Bases == {Named("int"), Named("void"), Named("Foo"), Named("N::Color"), Named("Inc"), Tmpl("Class", <<Tmpl("Int", <<Value("42")>>)>>),
          Named("SomeNamespace::AnInnerNamespace::AClassWhoseNameIsSoLongThatItDoesNotFitInAFixedBuffer")}
IntT == Named("int")
Bar == Named("N::Bar")
\* one step: [act, to]
A(op, ok, to) == IF ok THEN {[act |-> [op |-> op], to |-> to]} ELSE {}
Quals == {<<c, v, r, x>> : c, v \in BOOLEAN, r \in {"", "&", "&&"}, x \in BOOLEAN} \ {<<FALSE, FALSE, "", FALSE>>}
\* IF-guarded: a step is only built where it is allowed
Steps1(x) ==
  (IF CanPtr(x) THEN A("Ptr", TRUE, Ptr(x)) ELSE {}) \cup
  (IF CanRef(x) THEN A("LRef", TRUE, LRef(x)) \cup A("RRef", TRUE, RRef(x)) ELSE {}) \cup
  A("Const", TRUE, AddC(x)) \cup A("Volatile", TRUE, AddV(x)) \cup
  (IF CanArr(x) THEN A("Arr", TRUE, Arr(x, 3)) \cup A("UArr", TRUE, Arr(x, 0)) ELSE {}) \cup
  (IF CanRet(x) THEN A("Ret", TRUE, Fun(x, <<>>)) \cup A("Ret1", TRUE, Fun(x, <<Ptr(IntT)>>)) ELSE {}) \cup
  (IF CanPar(x) THEN A("Par", TRUE, Fun(IntT, <<x>>)) \cup A("Par3", TRUE, Fun(Named("void"), <<x, LRef(AddC(Bar)), x>>)) ELSE {}) \cup
  (IF IsFun(x) THEN {[act |-> [op |-> "Qual", c |-> q[1], v |-> q[2], ref |-> q[3], nx |-> q[4]], to |-> Qual(x, q[1], q[2], q[3], q[4])] : q \in Quals} ELSE {}) \cup
  (IF CanMem(x) THEN A("Mem", TRUE, Mem("Foo", x)) ELSE {}) \cup
  (IF ~Abominable(x) THEN A("Tmpl", TRUE, Tmpl("Class", <<x>>)) \cup A("Tmpl2", TRUE, Tmpl("N::Pair", <<x, IntT>>)) ELSE {})      \* GCC misprints these as arguments

\* the introspection helpers
RemoveCvRef(t) == DropCv(Referred(t))
\* the function something callable is made of; functors are [k |-> "call", of |-> f], classes with an operator()
RECURSIVE FunctionOf(_)
FunctionOf(t) == CASE t.k = "f" -> t [] t.k = "call" -> t.of [] t.k \in {"p", "m", "l", "r"} -> FunctionOf(t.of) [] OTHER -> [k |-> "none"]
\* traits exist for functions without qualifiers, pointers to them, pointers to member functions and functors, const or references
RECURSIVE HasTraits(_)
HasTraits(t) == CASE t.k = "f" -> ~Abominable(t)
                  [] t.k = "p" -> IsFun(t.of) /\ ~t.v
                  [] t.k = "m" -> IsFun(t.of) /\ ~t.v
                  [] IsRef(t) -> HasTraits(t.of)
                  [] t.k = "call" -> TRUE
                  [] OTHER -> FALSE
Plain(f) == Qual(f, FALSE, FALSE, "", FALSE)
IsFunctor(t) == IsFun(t) \/ (t.k = "m" /\ IsFun(t.of)) \/ t.k = "call"
\* the member functions (or free functions, without class) that take exactly these parameters
Resolve(fs, ps) == {i \in DOMAIN fs : fs[i].ps = ps}
PointerTo(cls, f) == IF cls = "" THEN Ptr(f) ELSE Mem(cls, f)
\* is the only argument a T, so that the call would hide copying or moving it?
Hides(t, as) == Len(as) = 1 /\ RemoveCvRef(as[1]) = t
\* the number of values of an enumeration from its last, Count (one past the last) or Max (the last)
ValueCount(kind, last) == IF kind = "Count" THEN last ELSE last + 1
=============================================================================
