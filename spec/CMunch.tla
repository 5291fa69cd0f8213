------------------------------- MODULE CMunch -------------------------------
(***************************************************************************)
(* Every string of up to MunchLen characters that operators, comments and  *)
(* white space are made of, between two variables: r = a<string>b;         *)
(* TLC enumerates the strings one character at a time and says what each   *)
(* statement means: it must be rejected, or r, a and b end up with certain *)
(* values.  The harness replays every one into the real compiler.          *)
(* Invariants: appending a character never changes a token other than the  *)
(* last two (maximal munch decides locally), white space only separates.   *)
(***************************************************************************)
EXTENDS CLex, FiniteSets, TLC, IOUtils, Bitwise

MunchLen == atoi(IOEnv.MUNCH_LEN)
Small == IOEnv.MUNCH_SET = "small"
\* + - & | < > = ! space        ~ * / % ^ ? . # tab
Alphabet == {43, 45, 38, 124, 60, 62, 61, 33, 32} \cup (IF Small THEN {} ELSE {126, 42, 47, 37, 94, 63, 46, 9})

VARIABLES s, done
vars == <<s, done>>

A0 == 29
B0 == 3
Text(x) == <<97>> \o x \o <<98, 10, 59>>            \* a ... b newline ;
Op(a) == [k |-> "op", s |-> a, v |-> <<>>]
Toks(x) == Spelled(Lex(Text(x)).t)

Post == {<<43,43>>, <<45,45>>}
AsgOps == {<<61>>, <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<37,61>>, <<38,61>>, <<124,61>>, <<94,61>>, <<60,60,61>>, <<62,62,61>>}
BinOps == {<<43>>, <<45>>, <<42>>, <<47>>, <<37>>, <<38>>, <<124>>, <<94>>, <<60,60>>, <<62,62>>, <<60>>, <<62>>, <<60,61>>, <<62,61>>,
           <<61,61>>, <<33,61>>, <<38,38>>, <<124,124>>}
UnOps == {<<43>>, <<45>>, <<33>>, <<126>>}

B2I(b) == IF b THEN 1 ELSE 0
U(x) == x % 65536
S(x) == LET y == x % 65536 IN IF y >= 32768 THEN y - 65536 ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Pow2(n) == FoldLeft(LAMBDA a, i : 2 * a, 1, [i \in 1..n |-> i])
Undef == 99999
Bin(o, x, y) ==
  CASE o = <<43>> -> S(x + y) [] o = <<45>> -> S(x - y) [] o = <<42>> -> S(x * y)
    [] o = <<47>> -> (IF y = 0 THEN Undef ELSE TDiv(x, y))
    [] o = <<37>> -> (IF y = 0 THEN Undef ELSE x - y * TDiv(x, y))
    [] o = <<38>> -> S(U(x) & U(y)) [] o = <<124>> -> S(U(x) | U(y)) [] o = <<94>> -> S(U(x) ^^ U(y))
    [] o = <<60,60>> -> (IF y < 0 \/ y > 10 THEN Undef ELSE S(x * Pow2(y)))
    [] o = <<62,62>> -> (IF y < 0 \/ y > 15 THEN Undef ELSE x \div Pow2(y))
    [] o = <<60>> -> B2I(x < y) [] o = <<62>> -> B2I(x > y) [] o = <<60,61>> -> B2I(x <= y) [] o = <<62,61>> -> B2I(x >= y)
    [] o = <<61,61>> -> B2I(x = y) [] o = <<33,61>> -> B2I(x # y)
    [] o = <<38,38>> -> B2I(x # 0 /\ y # 0) [] o = <<124,124>> -> B2I(x # 0 \/ y # 0)
Un(o, x) == CASE o = <<43>> -> x [] o = <<45>> -> S(0 - x) [] o = <<33>> -> B2I(x = 0) [] o = <<126>> -> S(-1 - x)

Reject == [k |-> "reject", r |-> 0, a |-> 0, b |-> 0]
Skip == [k |-> "skip", r |-> 0, a |-> 0, b |-> 0]
Val(k, r, a, b) == [k |-> k, r |-> r, a |-> a, b |-> b]

\* t: the operators between a and b; ends in b or (the rest of the line being a comment) in nothing
Meaning(x) ==
  LET lx == Lex(Text(x))
      T == Spelled(lx.t)
      n == Len(T)
      hasB == n >= 2 /\ T[n - 1].k = "id" /\ T[n - 1].s = <<98>>
      ops == IF hasB THEN SubSeq(T, 2, n - 2) ELSE SubSeq(T, 2, n - 1)
      post == ops # <<>> /\ ops[1].s \in Post
      rest == IF post THEN Tail(ops) ELSE ops
      avalue == A0
      aafter == IF post THEN (IF ops[1].s = <<43,43>> THEN A0 + 1 ELSE A0 - 1) ELSE A0
  IN CASE lx.bad # 0 -> Reject
       [] n < 2 \/ T[n].s # <<59>> \/ T[1] # [k |-> "id", s |-> <<97>>, v |-> <<>>] -> Reject
       [] \E i \in 1..Len(ops) : ops[i].k # "op" -> Reject
       [] ~hasB -> IF rest = <<>> THEN Val("value", avalue, aafter, B0) ELSE Reject
       [] rest = <<>> -> Reject
       [] OTHER ->
          LET o == rest[1].s
              pre == [i \in 1..Len(rest) - 1 |-> rest[i + 1].s]
              m == Len(pre)
              asg == o \in AsgOps
              incdec == {i \in 1..m : pre[i] \in Post}
              hasInc == m > 0 /\ pre[m] \in Post
              us == IF hasInc THEN SubSeq(pre, 1, m - 1) ELSE pre
              b1 == IF hasInc THEN (IF pre[m] = <<43,43>> THEN B0 + 1 ELSE B0 - 1) ELSE B0
              v == FoldLeft(LAMBDA y, u : Un(u, y), b1, Reverse(us))
              bo == IF o = <<61>> THEN <<61>> ELSE SubSeq(o, 1, Len(o) - 1)     \* the operator in an assignment
              lazy == o = <<124,124>>
              \* the compiler may refuse - ~ and compound assignment of a truth value
              maybe == \/ \E i \in 1..Len(us) - 1 : us[i] # <<33>> /\ us[i + 1] = <<33>>
                       \/ us # <<>> /\ us[1] = <<33>> /\ o \notin {<<61>>, <<38,38>>, <<124,124>>}
              kind == IF maybe THEN "maybe" ELSE "value"
          IN IF o \notin AsgOps \cup BinOps THEN Reject
             ELSE IF \E i \in 1..m : pre[i] = <<38>> THEN Skip
             ELSE IF \E i \in 1..m : pre[i] \notin UnOps \cup Post THEN Reject
             ELSE IF \E i \in incdec : i # m THEN Reject
             ELSE IF asg /\ post THEN Reject
             ELSE IF asg THEN LET nv == IF o = <<61>> THEN v ELSE Bin(bo, A0, v)
                              IN IF nv = Undef THEN Skip ELSE Val(kind, nv, nv, b1)
             ELSE IF lazy THEN Val(kind, 1, aafter, B0)
             ELSE LET r == Bin(o, avalue, v) IN IF r = Undef THEN Skip ELSE Val(kind, r, aafter, b1)

Init == s = <<>> /\ done = FALSE
Add == /\ ~done /\ Len(s) < MunchLen
       /\ \E c \in Alphabet : s' = Append(s, c)
       /\ UNCHANGED done
Say == /\ ~done /\ s # <<>> /\ done' = TRUE
       /\ LET m == Meaning(s) IN PrintT(<<"TRACE", s, m.k, m.r, m.a, m.b>>)
       /\ UNCHANGED s
Next == Add \/ Say
Spec == Init /\ [][Next]_vars

\* the tokens of s without its last character, but for the last token of it and what follows, stay
Local == s # <<>> =>
  LET p == Lex(<<97>> \o SubSeq(s, 1, Len(s) - 1)).t
      q == Lex(<<97>> \o s).t
      n == Len(p) - 1
  IN Len(q) >= n /\ Spelled(SubSeq(q, 1, n)) = Spelled(SubSeq(p, 1, n))
\* a space ends a token and adds none
Blank == s # <<>> /\ s[Len(s)] = 32 => 
  LET p == Lex(<<97>> \o SubSeq(s, 1, Len(s) - 1)) q == Lex(<<97>> \o s) IN p.bad = 0 => Spelled(p.t) = Spelled(q.t)
=============================================================================
