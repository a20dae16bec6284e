-------------------------------- MODULE Expr --------------------------------
(* Expressions (P15). An expression is put together operation by operation; *)
(* what it is worth for every assignment of its names is known all along,   *)
(* from the operands' values alone. It is either written as text, with no   *)
(* more parentheses than C's precedence rules need, or made by operations   *)
(* on expression objects. Whatever happens to it afterwards, its values and *)
(* its names stay.                                                          *)
(* Numbers are ratios <<n, d>>.                                             *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS
    Names,       \* 1..n
    Envs,        \* a sequence of assignments: env[name] is a ratio
    Lits,        \* ratios which can be written
    Binary,      \* operators
    Unary,       \* subset of {"-", "+", "!", "group", "abs"}
    Others,      \* subset of {"?:", "call0", "call1", "call2", "item", "member"}
    Grown,       \* TRUE: made by operations on objects
    MaxSize,     \* leaves and operations
    MaxStack,
    Sampling

VARIABLES stack, size, phase
v == <<stack, size, phase>>
Pick(S) == IF Sampling THEN {RandomElement(S)} ELSE S
Es == 1..Len(Envs)

(* --- ratios ----------------------------------------------------------- *)
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Ratio(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
Small(q) == Abs(q[1]) <= 20000 /\ q[2] <= 2000
Whole(q) == q[2] = 1
Zero(q) == q[1] = 0
Truth(b) == IF b THEN <<1, 1>> ELSE <<0, 1>>
Plus(p, q) == Ratio(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
Neg(p) == <<-p[1], p[2]>>
Times(p, q) == Ratio(p[1] * q[1], p[2] * q[2])
Less(p, q) == p[1] * q[2] < q[1] * p[2]
RECURSIVE Power(_, _)
Power(p, n) == IF n = 0 THEN <<1, 1>> ELSE IF n < 0 THEN Ratio(p[2], p[1]) ELSE Times(p, Power(p, n - 1))
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)

(* whether an operation has a value which is the same to everyone: no division by nothing, whole numbers where C wants them, ... *)
Defined(o, p, q) ==
    CASE o = "/" -> ~Zero(q)
      [] o = "^" -> Whole(q) /\ q[1] \in -1..3 /\ Abs(p[1]) <= 20 /\ p[2] <= 8 /\ ~Zero(p)
      [] o = "%" -> Whole(p) /\ Whole(q) /\ p[1] >= 0 /\ q[1] > 0
      [] o \in {"<<", ">>"} -> Whole(p) /\ Whole(q) /\ p[1] \in 0..200 /\ q[1] \in 0..4
      [] OTHER -> TRUE
Worth(o, p, q) ==
    CASE o = "+" -> Plus(p, q)
      [] o = "-" -> Plus(p, Neg(q))
      [] o = "*" -> Times(p, q)
      [] o = "/" -> Ratio(p[1] * q[2], p[2] * q[1])
      [] o = "^" -> Power(p, q[1])
      [] o = "%" -> <<p[1] % q[1], 1>>
      [] o = "<<" -> <<p[1] * TwoTo(q[1]), 1>>
      [] o = ">>" -> <<p[1] \div TwoTo(q[1]), 1>>
      [] o = "<" -> Truth(Less(p, q))
      [] o = ">" -> Truth(Less(q, p))
      [] o = "<=" -> Truth(~Less(q, p))
      [] o = ">=" -> Truth(~Less(p, q))
      [] o = "==" -> Truth(p = q)
      [] o = "!=" -> Truth(p # q)
      [] o = "&&" -> Truth(~Zero(p) /\ ~Zero(q))
      [] o = "||" -> Truth(~Zero(p) \/ ~Zero(q))
One(o, p) ==
    CASE o = "-" -> Neg(p)
      [] o \in {"+", "group"} -> p
      [] o = "!" -> Truth(Zero(p))
      [] o = "abs" -> <<Abs(p[1]), p[2]>>
(* what the functions, the array and the structure which texts refer to give *)
Call(k, a) ==
    CASE k = "call0" -> <<7, 1>>
      [] k = "call1" -> Plus(Times(<<2, 1>>, a[1]), <<1, 1>>)
      [] k = "call2" -> Plus(a[1], Times(<<-2, 1>>, a[2]))
Member(i) == Ratio(3 * i, 2)
Item(i) == <<2 * i + 3, 1>>

(* --- trees: [k: kind, o: operator, i: number, q: literal, c: children] --- *)
Node(k, o, i, q, c) == [k |-> k, o |-> o, i |-> i, q |-> q, c |-> c]
RECURSIVE Value(_, _)
Value(t, e) ==
    CASE t.k = "lit" -> t.q
      [] t.k = "name" -> e[t.i]
      [] t.k = "member" -> Member(t.i)
      [] t.k = "bin" -> Worth(t.o, Value(t.c[1], e), Value(t.c[2], e))
      [] t.k = "un" -> One(t.o, Value(t.c[1], e))
      [] t.k = "?:" -> IF Zero(Value(t.c[1], e)) THEN Value(t.c[3], e) ELSE Value(t.c[2], e)
      [] t.k = "call" -> Call(t.o, [i \in 1..Len(t.c) |-> Value(t.c[i], e)])
      [] t.k = "item" -> Item(Value(t.c[1], e)[1])
RECURSIVE NamesOf(_)
NamesOf(t) == (IF t.k = "name" THEN {t.i} ELSE {}) \cup UNION {NamesOf(t.c[i]) : i \in 1..Len(t.c)}

(* --- text: C's precedence, and ^ before the signs ---------------------- *)
Binds(o) == CASE o = "^" -> 16 [] o \in {"*", "/", "%"} -> 14 [] o \in {"+", "-"} -> 13 [] o \in {"<<", ">>"} -> 12
              [] o \in {"<", ">", "<=", ">="} -> 11 [] o \in {"==", "!="} -> 10 [] o = "&&" -> 9 [] o = "||" -> 8
Tight(t) == CASE t.k = "bin" -> Binds(t.o) [] t.k = "?:" -> 1 [] t.k = "un" /\ t.o # "group" /\ t.o # "abs" -> 15 [] OTHER -> 20
Lead(t) == t.k = "un" /\ t.o \in {"-", "+", "!"}
RECURSIVE Text(_)
Needs(t, least) == IF Tight(t) < least THEN <<"(">> \o Text(t) \o <<")">> ELSE Text(t)
(* numbers are for the replay to write: "#" and their place *)
Text(t) ==
    CASE t.k = "lit" -> <<"L", t.q>>
      [] t.k = "name" -> <<"N", t.i>>
      [] t.k = "member" -> <<"M", t.i>>
      [] t.k = "bin" /\ t.o = "^" -> Needs(t.c[1], 17) \o <<t.o>> \o (IF Lead(t.c[2]) THEN Text(t.c[2]) ELSE Needs(t.c[2], 16))
      [] t.k = "bin" /\ t.o # "^" -> Needs(t.c[1], Binds(t.o)) \o <<t.o>> \o Needs(t.c[2], Binds(t.o) + 1)
      [] t.k = "un" /\ t.o = "group" -> <<"(">> \o Text(t.c[1]) \o <<")">>
      [] t.k = "un" /\ t.o = "abs" -> <<"fabs", "(">> \o Text(t.c[1]) \o <<")">>
      [] t.k = "un" /\ t.o = "!" -> <<"!">> \o (IF t.c[1].k = "bin" THEN <<"(">> \o Text(t.c[1]) \o <<")">> ELSE Needs(t.c[1], 15))
      [] t.k = "un" /\ t.o \in {"-", "+"} -> <<t.o>> \o Needs(t.c[1], 15)
      [] t.k = "?:" -> Needs(t.c[1], 2) \o <<"?">> \o Text(t.c[2]) \o <<":">> \o Needs(t.c[3], 1)
      [] t.k = "call" -> <<"F", Len(t.c), "(">> \o (IF Len(t.c) = 0 THEN <<>> ELSE IF Len(t.c) = 1 THEN Text(t.c[1]) ELSE Text(t.c[1]) \o <<",">> \o Text(t.c[2])) \o <<")">>
      [] t.k = "item" -> <<"A", 1, "[">> \o Text(t.c[1]) \o <<"]">>

(* --- putting it together ----------------------------------------------- *)
Entry(t, vals) == [t |-> t, w |-> vals]
Top(n) == stack[Len(stack) - n]
Without(n) == SubSeq(stack, 1, Len(stack) - n)
Fits(vals) == \A e \in Es : Small(vals[e])

Init == stack = <<>> /\ size = 0 /\ phase = "make"
Grow(n, t, vals) ==
    /\ Fits(vals)
    /\ stack' = Append(Without(n), Entry(t, vals))
    /\ size' = size + 1 /\ UNCHANGED phase
(* what is on the stack has to come together within the size there is left *)
Leaf ==
    /\ phase = "make" /\ Len(stack) < MaxStack /\ size + 1 + Len(stack) <= MaxSize
    /\ \/ \E q \in Pick(Lits) : Grow(0, Node("lit", "", 0, q, <<>>), [e \in Es |-> q])
       \/ \E i \in Pick(Names) : Grow(0, Node("name", "", i, <<0, 1>>, <<>>), [e \in Es |-> Envs[e][i]])
       \/ "member" \in Others /\ (Sampling => RandomElement(1..6) = 1) /\ \E i \in Pick(1..2) : Grow(0, Node("member", "", i, <<0, 1>>, <<>>), [e \in Es |-> Member(i)])
       \/ "call0" \in Others /\ (Sampling => RandomElement(1..8) = 1) /\ Grow(0, Node("call", "call0", 0, <<0, 1>>, <<>>), [e \in Es |-> Call("call0", <<>>)])
Apply2 ==
    /\ phase = "make" /\ Len(stack) > 1 /\ size < MaxSize
    /\ \E o \in Pick(Binary) :
        LET a == Top(1) b == Top(0) IN
        /\ \A e \in Es : Defined(o, a.w[e], b.w[e])
        /\ Grow(2, Node("bin", o, 0, <<0, 1>>, <<a.t, b.t>>), [e \in Es |-> Worth(o, a.w[e], b.w[e])])
Apply1 ==
    /\ phase = "make" /\ Len(stack) > 0 /\ size + Len(stack) <= MaxSize
    /\ Sampling => RandomElement(1..3) = 1
    /\ \E o \in Pick(Unary) :
        Grow(1, Node("un", o, 0, <<0, 1>>, <<Top(0).t>>), [e \in Es |-> One(o, Top(0).w[e])])
Choose3 ==
    /\ phase = "make" /\ "?:" \in Others /\ Len(stack) > 2 /\ size < MaxSize
    /\ LET a == Top(2) b == Top(1) c == Top(0) IN
        Grow(3, Node("?:", "", 0, <<0, 1>>, <<a.t, b.t, c.t>>), [e \in Es |-> IF Zero(a.w[e]) THEN c.w[e] ELSE b.w[e]])
Calls ==
    /\ phase = "make" /\ size + Len(stack) <= MaxSize
    /\ Sampling => RandomElement(1..3) = 1
    /\ \/ "call1" \in Others /\ Len(stack) > 0 /\
            Grow(1, Node("call", "call1", 0, <<0, 1>>, <<Top(0).t>>), [e \in Es |-> Call("call1", <<Top(0).w[e]>>)])
       \/ "call2" \in Others /\ Len(stack) > 1 /\
            Grow(2, Node("call", "call2", 0, <<0, 1>>, <<Top(1).t, Top(0).t>>), [e \in Es |-> Call("call2", <<Top(1).w[e], Top(0).w[e]>>)])
       \/ "item" \in Others /\ Len(stack) > 0 /\ (\A e \in Es : Top(0).w[e] \in {<<i, 1>> : i \in 0..3}) /\
            Grow(1, Node("item", "", 0, <<0, 1>>, <<Top(0).t>>), [e \in Es |-> Item(Top(0).w[e][1])])
Done ==
    /\ phase = "make" /\ Len(stack) = 1
    /\ Sampling => size > MaxSize - 3 \/ RandomElement(1..12) = 1
    /\ phase' = "done"
    /\ Emit([tree |-> stack[1].t, text |-> IF Grown THEN <<>> ELSE Text(stack[1].t), vals |-> stack[1].w, names |-> NamesOf(stack[1].t)])
    /\ UNCHANGED <<stack, size>>
Next == Leaf \/ Apply2 \/ Apply1 \/ Choose3 \/ Calls \/ Done
Spec == Init /\ [][Next]_v
------------------------------------------------------------------------------
(* the values which were carried along are those of the tree *)
Carried == \A i \in 1..Len(stack) : \A e \in Es : stack[i].w[e] = Value(stack[i].t, Envs[e])
(* a name which does not occur makes no difference *)
OnlyItsNames == \A i \in 1..Len(stack) : \A e, f \in Es :
    (\A n \in NamesOf(stack[i].t) : Envs[e][n] = Envs[f][n]) => stack[i].w[e] = stack[i].w[f]
Lowest == \A i \in 1..Len(stack) : \A e \in Es : LET q == stack[i].w[e] IN q[2] > 0 /\ Gcd(Abs(q[1]), q[2]) = 1
=============================================================================
