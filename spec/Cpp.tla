-------------------------------- MODULE Cpp --------------------------------
(***************************************************************************)
(* A specification of the preprocessor: translation phases 2 to 4 of C.    *)
(*                                                                         *)
(* A case is a set of source files (bytes), the exit code of the real      *)
(* preprocessor and the bytes it wrote.  The machine below processes one   *)
(* unit (a directive, or a run of text lines) per step: it keeps the stack *)
(* of open files, the stack of conditional groups, the macro table and the *)
(* tokens written so far.  When it ends, the tokens that the real          *)
(* preprocessor wrote must be exactly the tokens the machine wrote; when   *)
(* it rejects the source, the real one must have rejected it too, naming   *)
(* the offending line if it names a line at all.                           *)
(*                                                                         *)
(* Characters are numbers.  A token is [k: kind, s: spelling, w: is there  *)
(* white space before it, ln: line, h: names it is not to be expanded by]. *)
(* Macro expansion is Prosser's algorithm with hide sets.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, SequencesExt

Cases == ndJsonDeserialize(IOEnv.CPP_CASES)

VARIABLES pid, files, cond, mac, out, res

vars == <<pid, files, cond, mac, out, res>>

--------------------------------------------------------------------------
(* Characters *)
IsDig(c)  == c >= 48 /\ c <= 57
IsIdS(c)  == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
IsIdC(c)  == IsDig(c) \/ IsIdS(c)
IsWs(c)   == c <= 32

S_define == <<100,101,102,105,110,101>>   S_undef == <<117,110,100,101,102>>
S_if == <<105,102>>                       S_ifdef == <<105,102,100,101,102>>
S_ifndef == <<105,102,110,100,101,102>>   S_elif == <<101,108,105,102>>
S_else == <<101,108,115,101>>             S_endif == <<101,110,100,105,102>>
S_include == <<105,110,99,108,117,100,101>> S_line == <<108,105,110,101>>
S_error == <<101,114,114,111,114>>        S_pragma == <<112,114,97,103,109,97>>
S_defined == <<100,101,102,105,110,101,100>>
S_LINE == <<95,95,76,73,78,69,95,95>>     S_FILE == <<95,95,70,73,76,69,95,95>>
S_SCC == <<95,95,83,67,67,95,95>>

Ops3 == {<<60,60,61>>, <<62,62,61>>, <<46,46,46>>}
Ops2 == {<<60,60>>, <<62,62>>, <<60,61>>, <<62,61>>, <<61,61>>, <<33,61>>, <<38,38>>, <<124,124>>, <<43,43>>, <<45,45>>,
         <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<37,61>>, <<38,61>>, <<124,61>>, <<94,61>>, <<45,62>>, <<35,35>>}

--------------------------------------------------------------------------
(* Phase 2: physical lines to logical lines *)

Idx(s) == [i \in 1..Len(s) |-> i]

PhysLines(b) ==
  LET r == FoldLeft(LAMBDA a, i : IF b[i] = 10 THEN [ls |-> Append(a.ls, SubSeq(b, a.st, i - 1)), st |-> i + 1] ELSE a,
                    [ls |-> <<>>, st |-> 1], Idx(b))
  IN IF r.st <= Len(b) THEN Append(r.ls, SubSeq(b, r.st, Len(b))) ELSE r.ls

StripCR(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN SubSeq(l, 1, Len(l) - 1) ELSE l

Const(n, v) == [i \in 1..n |-> v]

\* <<[c |-> characters, l |-> their lines, ln |-> first line]>>
LogLines(b) ==
  LET ph == PhysLines(b)
      step(a, i) ==
        LET s == StripCR(ph[i])
            cont == s # <<>> /\ s[Len(s)] = 92
            c == IF cont THEN SubSeq(s, 1, Len(s) - 1) ELSE s
            n == Len(a.ls)
        IN [cont |-> cont,
            ls |-> IF a.cont
                   THEN [a.ls EXCEPT ![n] = [c |-> @.c \o c, l |-> @.l \o Const(Len(c), i), ln |-> @.ln, hi |-> i]]
                   ELSE Append(a.ls, [c |-> c, l |-> Const(Len(c), i), ln |-> i, hi |-> i])]
  IN FoldLeft(step, [cont |-> FALSE, ls |-> <<>>], Idx(ph)).ls

--------------------------------------------------------------------------
(* Phase 3: tokens *)

RECURSIVE IdEnd(_, _)
IdEnd(c, i) == IF i <= Len(c) /\ IsIdC(c[i]) THEN IdEnd(c, i + 1) ELSE i
RECURSIVE NumEnd(_, _)
NumEnd(c, i) ==
  IF i > Len(c) THEN i
  ELSE IF IsIdC(c[i]) \/ c[i] = 46 THEN NumEnd(c, i + 1)
  ELSE i
RECURSIVE LitEnd(_, _, _)   \* index after the closing quote, 0 if there is none
LitEnd(c, q, i) ==
  IF i > Len(c) THEN 0
  ELSE IF c[i] = q THEN i + 1
  ELSE IF c[i] = 92 THEN LitEnd(c, q, i + 2)
  ELSE LitEnd(c, q, i + 1)
RECURSIVE ComEnd(_, _)
ComEnd(c, i) == IF i >= Len(c) THEN 0 ELSE IF c[i] = 42 /\ c[i + 1] = 47 THEN i + 2 ELSE ComEnd(c, i + 1)

At(c, i) == IF i <= Len(c) THEN c[i] ELSE 0

Tok(k, s, w, ln) == [k |-> k, s |-> s, w |-> w, ln |-> ln, h |-> {}]

RECURSIVE Lex(_, _, _, _, _, _)
Lex(c, l, i, w, ts, inC) ==
  IF i > Len(c) THEN [ts |-> ts, inC |-> inC, w |-> w]
  ELSE IF inC THEN
    LET j == ComEnd(c, i) IN IF j = 0 THEN [ts |-> ts, inC |-> TRUE, w |-> TRUE] ELSE Lex(c, l, j, TRUE, ts, FALSE)
  ELSE LET ch == c[i] IN
    CASE IsWs(ch) -> Lex(c, l, i + 1, TRUE, ts, FALSE)
      [] ch = 47 /\ At(c, i + 1) = 47 -> [ts |-> ts, inC |-> FALSE, w |-> TRUE]
      [] ch = 47 /\ At(c, i + 1) = 42 -> Lex(c, l, i + 2, TRUE, ts, TRUE)
      [] OTHER ->
         LET j == CASE IsIdS(ch) -> IdEnd(c, i)
                    [] IsDig(ch) -> NumEnd(c, i)
                    [] ch = 46 /\ IsDig(At(c, i + 1)) -> NumEnd(c, i)
                    [] ch = 34 \/ ch = 39 -> LET e == LitEnd(c, ch, i + 1) IN IF e = 0 THEN Len(c) + 1 ELSE e
                    [] i + 2 <= Len(c) /\ SubSeq(c, i, i + 2) \in Ops3 -> i + 3
                    [] i + 1 <= Len(c) /\ SubSeq(c, i, i + 1) \in Ops2 -> i + 2
                    [] OTHER -> i + 1
             k == CASE IsIdS(ch) -> "id"
                    [] IsDig(ch) \/ (ch = 46 /\ IsDig(At(c, i + 1))) -> "num"
                    [] ch = 34 -> IF LitEnd(c, ch, i + 1) = 0 THEN "bad" ELSE "str"
                    [] ch = 39 -> IF LitEnd(c, ch, i + 1) = 0 THEN "bad" ELSE "chr"
                    [] OTHER -> "op"
         IN Lex(c, l, j, FALSE, Append(ts, Tok(k, SubSeq(c, i, j - 1), w, l[i])), FALSE)

\* units: what lies between two newlines that are not within a comment
Units(b) ==
  LET ll == LogLines(b)
      step(a, i) ==
        LET r == Lex(ll[i].c, ll[i].l, 1, a.w, a.ts, a.inC) IN
        IF r.inC THEN [a EXCEPT !.inC = TRUE, !.w = TRUE, !.ts = r.ts, !.open = TRUE, !.lo = IF a.open THEN @ ELSE ll[i].ln]
        ELSE [inC |-> FALSE, w |-> TRUE, ts |-> <<>>, open |-> FALSE, lo |-> 0,
              us |-> Append(a.us, [ts |-> r.ts, lo |-> IF a.open THEN a.lo ELSE ll[i].ln, hi |-> ll[i].hi])]
      r == FoldLeft(step, [inC |-> FALSE, w |-> TRUE, ts |-> <<>>, open |-> FALSE, lo |-> 0, us |-> <<>>], Idx(ll))
  IN [us |-> r.us, bad |-> r.inC]

Lexed == [p \in 1..Len(Cases) |-> [f \in 1..Len(Cases[p].files) |-> Units(Cases[p].files[f].b)]]
OutToks == [p \in 1..Len(Cases) |-> LET u == Units(Cases[p].out) IN FoldLeft(LAMBDA a, x : a \o x.ts, <<>>, u.us)]

--------------------------------------------------------------------------
(* Phase 4: macro expansion *)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

Quote(s) == <<34>> \o FoldLeft(LAMBDA a, c : IF c = 34 \/ c = 92 THEN a \o <<92, c>> ELSE Append(a, c), <<>>, s) \o <<34>>

IsOp(t, s) == t.k = "op" /\ t.s = s
LPar == <<40>>  RPar == <<41>>  Comma == <<44>>  Hash == <<35>>  HashHash == <<35, 35>>

\* the arguments of a call: ts[i] is the first token after '('
RECURSIVE Collect(_, _, _, _, _)
Collect(ts, i, d, cur, args) ==
  IF i > Len(ts) THEN [ok |-> FALSE, args |-> <<>>, next |-> 0, h |-> {}, ln |-> 0]
  ELSE LET t == ts[i] IN
    IF IsOp(t, RPar) /\ d = 0 THEN [ok |-> TRUE, args |-> Append(args, cur), next |-> i + 1, h |-> t.h, ln |-> t.ln]
    ELSE IF IsOp(t, Comma) /\ d = 0 THEN Collect(ts, i + 1, 0, <<>>, Append(args, cur))
    ELSE Collect(ts, i + 1, IF IsOp(t, LPar) THEN d + 1 ELSE IF IsOp(t, RPar) THEN d - 1 ELSE d, Append(cur, t), args)

Stringize(a) ==
  LET body == FoldLeft(LAMBDA s, i :
                (IF a[i].w /\ i > 1 THEN Append(s, 32) ELSE s) \o
                (IF a[i].k \in {"str", "chr"}
                 THEN FoldLeft(LAMBDA x, c : IF c = 34 \/ c = 92 THEN x \o <<92, c>> ELSE Append(x, c), <<>>, a[i].s)
                 ELSE a[i].s), <<>>, Idx(a))
  IN <<34>> \o body \o <<34>>

Placemarker == [k |-> "pm", s |-> <<>>, w |-> FALSE, ln |-> 0, h |-> {}]
NonEmpty(s) == IF s = <<>> THEN <<Placemarker>> ELSE s

Glue(a, b) ==
  IF a.k = "pm" THEN [b EXCEPT !.w = a.w \/ b.w]
  ELSE IF b.k = "pm" THEN a
  ELSE LET s == a.s \o b.s
           r == Lex(s, Const(Len(s), a.ln), 1, a.w, <<>>, FALSE)
       IN IF Len(r.ts) = 1 /\ ~r.inC THEN [r.ts[1] EXCEPT !.w = a.w, !.h = a.h \cap b.h]
          ELSE [k |-> "invalid", s |-> s, w |-> a.w, ln |-> a.ln, h |-> {}]

SetW(s, w) == IF s = <<>> THEN s ELSE [s EXCEPT ![1].w = w]

\* removes placemarkers; the white space before what vanishes stays
Clean(os, w0) ==
  LET r == FoldLeft(LAMBDA a, t : IF t.k = "pm" THEN [a EXCEPT !.w = @ \/ t.w]
                                  ELSE [s |-> Append(a.s, [t EXCEPT !.w = @ \/ a.w]), w |-> FALSE], [s |-> <<>>, w |-> w0], os)
  IN r

ParamIdx(m, t) == IF t.k = "id" /\ m.fn /\ (\E i \in 1..Len(m.params) : m.params[i] = t.s)
                  THEN CHOOSE i \in 1..Len(m.params) : m.params[i] = t.s ELSE 0

RECURSIVE Exp(_, _, _, _)
RECURSIVE Sub(_, _, _, _, _, _, _)

\* m: macro, raw: arguments, full: the arguments completely expanded (functions are evaluated lazily), i: position in the body
Sub(m, raw, full, i, os, M, F) ==
  IF i > Len(m.body) THEN os
  ELSE LET t == m.body[i]
           paste == i > 1 /\ IsOp(m.body[i - 1], HashHash)
           nextp == i < Len(m.body) /\ IsOp(m.body[i + 1], HashHash)
           str == m.fn /\ IsOp(t, Hash)
           p == ParamIdx(m, t)
           nextps == i + 1 < Len(m.body) /\ IsOp(m.body[i + 2], HashHash)
           opd == IF str THEN <<Tok("str", Stringize(raw[ParamIdx(m, m.body[i + 1])]), t.w, t.ln)>>
                  ELSE IF p = 0 THEN <<t>>
                  ELSE IF paste \/ nextp THEN SetW(NonEmpty(raw[p]), t.w)
                  ELSE SetW(NonEmpty(full[p]), t.w)
           nx == IF str THEN i + 2 ELSE i + 1
       IN IF IsOp(t, HashHash) THEN Sub(m, raw, full, i + 1, os, M, F)
          ELSE Sub(m, raw, full, nx,
                   IF paste THEN SubSeq(os, 1, Len(os) - 1) \o <<Glue(os[Len(os)], opd[1])>> \o SubSeq(opd, 2, Len(opd))
                   ELSE os \o opd, M, F)

\* a run of text that takes more expansions than this is beyond what the tool is built for and is not judged
MaxWork == 400

Fail(e, lo, hi) == [e |-> e, o |-> <<>>, u |-> FALSE, m |-> "", lo |-> lo, hi |-> hi, n |-> IF e = "capacity" THEN MaxWork + 1 ELSE 0]

\* ts: tokens yet to be looked at, o: tokens finished
Exp(ts, acc, M, F) ==
  IF ts = <<>> \/ acc.e # "" THEN acc
  ELSE
  LET t == Head(ts)  r == Tail(ts)
      plain == Exp(r, [acc EXCEPT !.o = Append(@, t)], M, F) IN
  IF t.k # "id" THEN plain
  ELSE IF t.s = S_LINE THEN Exp(r, [acc EXCEPT !.o = Append(@, [t EXCEPT !.k = "num", !.s = Digits(t.ln)])], M, F)
  ELSE IF t.s = S_FILE THEN Exp(r, [acc EXCEPT !.o = Append(@, [t EXCEPT !.k = "str", !.s = Quote(F)])], M, F)
  ELSE IF t.s \notin DOMAIN M \/ t.s \in t.h THEN plain
  ELSE LET m == M[t.s] IN
    IF ~m.fn \/ (r # <<>> /\ IsOp(r[1], LPar)) THEN
      LET ca == IF m.fn THEN Collect(r, 2, 0, <<>>, <<>>) ELSE [ok |-> TRUE, args |-> <<>>, next |-> 1, h |-> t.h, ln |-> t.ln]
          n == Len(m.params)
          fits == ~m.fn \/ Len(ca.args) = n \/ (n = 0 /\ Len(ca.args) = 1 /\ ca.args[1] = <<>>)
          used == {i \in 1..n : \E q \in 1..Len(m.body) :
                        ParamIdx(m, m.body[q]) = i /\ ~(q > 1 /\ (IsOp(m.body[q - 1], HashHash) \/ IsOp(m.body[q - 1], Hash)))
                        /\ ~(q < Len(m.body) /\ IsOp(m.body[q + 1], HashHash))}
          none == [e |-> "", o |-> <<>>, u |-> FALSE, m |-> acc.m, lo |-> 0, hi |-> 0, n |-> acc.n]
          fullr == FoldLeft(LAMBDA a, i : LET n0 == IF i = 1 THEN acc.n ELSE a[i - 1].n IN
                             Append(a, IF i \in used /\ n0 <= MaxWork THEN Exp(ca.args[i], [none EXCEPT !.n = n0], M, F) ELSE [none EXCEPT !.n = n0]), <<>>, [i \in 1..n |-> i])
          work == 1 + IF n = 0 THEN acc.n ELSE fullr[n].n
      IN IF acc.n > MaxWork \/ Len(r) > 3000 THEN Fail("capacity", 0, 0)
         ELSE IF ~ca.ok THEN Fail("unterminated call", t.ln, 99999)
         ELSE IF ~fits THEN Fail("wrong number of arguments", t.ln, ca.ln)
         ELSE
         LET full == FoldLeft(LAMBDA a, x : Append(a, x.o), <<>>, fullr)
             bad == {i \in used : fullr[i].e # ""}
             hs == (IF acc.m = "cap" THEN t.h \cap ca.h ELSE t.h \cup ca.h) \cup {t.s}
             sub == Sub(m, ca.args, full, 1, <<>>, M, F)
             os == Clean(sub, t.w)
             new == [i \in 1..Len(os.s) |-> [os.s[i] EXCEPT !.h = @ \cup hs, !.ln = t.ln]]
             rest == SubSeq(r, ca.next, Len(r))
             rest2 == IF rest # <<>> /\ os.w THEN [rest EXCEPT ![1].w = TRUE] ELSE rest
         IN IF bad # {} THEN (LET x == fullr[CHOOSE i \in bad : TRUE] IN [x EXCEPT !.hi = IF @ < ca.ln THEN ca.ln ELSE @])
            ELSE IF work > MaxWork \/ Len(sub) > 800 THEN Fail("capacity", 0, 0)
            ELSE IF \E i \in 1..Len(new) : new[i].k = "invalid" THEN Fail("invalid paste", 0, 0)
            ELSE Exp(new \o rest2, [acc EXCEPT !.n = work, !.u = @ \/ t.h # ca.h \/ (\E i \in used : fullr[i].u)], M, F)
    ELSE plain

\* A call whose name comes from an expansion and whose ')' does not: C leaves open whether it is nested in that expansion.
\* m = "cap" takes it as not nested, "cup" as nested; u remembers that there was such a call.
Expand1(ts, m, M, F) == Exp(ts, [e |-> "", o |-> <<>>, u |-> FALSE, m |-> m, lo |-> 0, hi |-> 0, n |-> 0], M, F)
Spell(ts) == [i \in 1..Len(ts) |-> ts[i].s]
Expand(ts, M, F) ==
  LET a == Expand1(ts, "cap", M, F) IN
  IF ~a.u THEN a
  ELSE LET b == Expand1(ts, "cup", M, F) IN [a EXCEPT !.u = b.e # a.e \/ Spell(b.o) # Spell(a.o)]

--------------------------------------------------------------------------
(* #if expressions *)

\* values are within 16 bits; anything else makes the case too big to judge
V(v, r) == IF v > 32767 \/ v < -32767 THEN [e |-> "big", v |-> 0, r |-> r] ELSE [e |-> "", v |-> v, r |-> r]
EErr(e) == [e |-> e, v |-> 0, r |-> <<>>]

HexV(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsHex(c) == IsDig(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)

RECURSIVE StripSuf(_)
StripSuf(s) == IF s # <<>> /\ s[Len(s)] \in {76, 108} THEN StripSuf(SubSeq(s, 1, Len(s) - 1)) ELSE s

NumVal(s0) ==
  LET s == StripSuf(s0)
      base == IF Len(s) > 1 /\ s[1] = 48 /\ s[2] \in {88, 120} THEN 16 ELSE IF s # <<>> /\ s[1] = 48 THEN 8 ELSE 10
      d == IF base = 16 THEN SubSeq(s, 3, Len(s)) ELSE s
      ok == d # <<>> /\ (\A i \in 1..Len(d) : IsHex(d[i]) /\ HexV(d[i]) < base)
  IN IF Len(s) > 1 /\ s[Len(s)] \in {85, 117} THEN 100000   \* unsigned arithmetic is not modelled
     ELSE IF ~ok THEN -1 ELSE FoldLeft(LAMBDA a, c : IF a > 100000 THEN a ELSE a * base + HexV(c), 0, d)

CharVal(s) ==
  LET b == SubSeq(s, 2, Len(s) - 1) IN
  IF Len(b) = 1 THEN b[1]
  ELSE IF Len(b) >= 2 /\ b[1] = 92 THEN
    LET e == b[2]  r == SubSeq(b, 3, Len(b)) IN
    CASE e = 120 /\ r # <<>> /\ (\A i \in 1..Len(r) : IsHex(r[i])) -> FoldLeft(LAMBDA a, c : a * 16 + HexV(c), 0, r)
      [] e >= 48 /\ e <= 55 /\ (\A i \in 1..Len(r) : r[i] >= 48 /\ r[i] <= 55) -> FoldLeft(LAMBDA a, c : a * 8 + HexV(c), e - 48, r)
      [] Len(b) # 2 -> -1
      [] e = 97 -> 7 [] e = 98 -> 8 [] e = 116 -> 9 [] e = 110 -> 10 [] e = 118 -> 11 [] e = 102 -> 12 [] e = 114 -> 13
      [] OTHER -> e
  ELSE -1

TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
U16(a) == a % 65536
S16(a) == IF a >= 32768 THEN a - 65536 ELSE a
Bool(b) == IF b THEN 1 ELSE 0
Pow2(n) == 2 ^ n

\* "!", "-", ... as spellings
Prec(t) ==
  IF t.k # "op" THEN 0 ELSE
  CASE t.s \in {<<42>>, <<47>>, <<37>>} -> 10 [] t.s \in {<<43>>, <<45>>} -> 9
    [] t.s \in {<<60, 60>>, <<62, 62>>} -> 8 [] t.s \in {<<60>>, <<62>>, <<60, 61>>, <<62, 61>>} -> 7
    [] t.s \in {<<61, 61>>, <<33, 61>>} -> 6 [] t.s = <<38>> -> 5 [] t.s = <<94>> -> 4 [] t.s = <<124>> -> 3
    [] t.s = <<38, 38>> -> 2 [] t.s = <<124, 124>> -> 1 [] OTHER -> 0

Apply(s, a, b, sk, r) ==
  CASE s = <<42>> -> IF (IF a < 0 THEN -a ELSE a) * (IF b < 0 THEN -b ELSE b) > 32767 THEN EErr("big") ELSE V(a * b, r)
    [] s = <<47>> -> IF b = 0 THEN (IF sk THEN V(0, r) ELSE EErr("div")) ELSE V(TDiv(a, b), r)
    [] s = <<37>> -> IF b = 0 THEN (IF sk THEN V(0, r) ELSE EErr("div")) ELSE V(TMod(a, b), r)
    [] s = <<43>> -> V(a + b, r) [] s = <<45>> -> V(a - b, r)
    [] s = <<60, 60>> -> IF b < 0 \/ b > 14 \/ a < 0 THEN EErr("big") ELSE V(a * Pow2(b), r)
    [] s = <<62, 62>> -> IF b < 0 \/ b > 14 THEN EErr("big") ELSE V(a \div Pow2(b), r)
    [] s = <<60>> -> V(Bool(a < b), r) [] s = <<62>> -> V(Bool(a > b), r)
    [] s = <<60, 61>> -> V(Bool(a <= b), r) [] s = <<62, 61>> -> V(Bool(a >= b), r)
    [] s = <<61, 61>> -> V(Bool(a = b), r) [] s = <<33, 61>> -> V(Bool(a # b), r)
    [] s = <<38>> -> V(S16(U16(a) & U16(b)), r) [] s = <<94>> -> V(S16(U16(a) ^^ U16(b)), r) [] s = <<124>> -> V(S16(U16(a) | U16(b)), r)
    [] s = <<38, 38>> -> V(Bool(a # 0 /\ b # 0), r) [] s = <<124, 124>> -> V(Bool(a # 0 \/ b # 0), r)

RECURSIVE EUnary(_, _)
RECURSIVE EBin(_, _, _)
RECURSIVE EBinL(_, _, _)
RECURSIVE ECond(_, _)

EUnary(ts, sk) ==
  IF ts = <<>> THEN EErr("expr")
  ELSE LET t == ts[1]  r == Tail(ts) IN
    CASE t.k = "num" -> LET n == NumVal(t.s) IN IF n = -1 THEN EErr("expr") ELSE V(n, r)
      [] t.k = "chr" -> LET n == CharVal(t.s) IN IF n = -1 THEN EErr("expr") ELSE IF n > 127 THEN EErr("big") ELSE V(n, r)
      [] t.k = "id" -> V(0, r)
      [] t.k = "val" -> V(t.v, r)
      [] IsOp(t, LPar) -> LET x == ECond(r, sk) IN
           IF x.e # "" THEN x ELSE IF x.r = <<>> \/ ~IsOp(x.r[1], RPar) THEN EErr("expr") ELSE V(x.v, Tail(x.r))
      [] t.k = "op" /\ t.s \in {<<33>>, <<45>>, <<126>>, <<43>>} ->
           LET x == EUnary(r, sk) IN IF x.e # "" THEN x
           ELSE V(CASE t.s = <<33>> -> Bool(x.v = 0) [] t.s = <<45>> -> -x.v [] t.s = <<126>> -> -x.v - 1 [] OTHER -> x.v, x.r)
      [] OTHER -> EErr("expr")

EBinL(l, p, sk) ==
  IF l.e # "" \/ l.r = <<>> THEN l
  ELSE LET q == Prec(l.r[1]) IN
    IF q = 0 \/ q < p THEN l
    ELSE LET s == l.r[1].s
             sk2 == sk \/ (s = <<38, 38>> /\ l.v = 0) \/ (s = <<124, 124>> /\ l.v # 0)
             x == EBin(Tail(l.r), q + 1, sk2)
         IN IF x.e # "" THEN x ELSE EBinL(Apply(s, l.v, x.v, sk, x.r), p, sk)
EBin(ts, p, sk) == EBinL(EUnary(ts, sk), p, sk)

ECond(ts, sk) ==
  LET c == EBin(ts, 1, sk) IN
  IF c.e # "" \/ c.r = <<>> \/ ~IsOp(c.r[1], <<63>>) THEN c
  ELSE LET a == ECond(Tail(c.r), sk \/ c.v = 0) IN
    IF a.e # "" THEN a
    ELSE IF a.r = <<>> \/ ~IsOp(a.r[1], <<58>>) THEN EErr("expr")
    ELSE LET b == ECond(Tail(a.r), sk \/ c.v # 0) IN
      IF b.e # "" THEN b ELSE V(IF c.v # 0 THEN a.v ELSE b.v, b.r)

ValTok(v) == [k |-> "val", s |-> <<>>, w |-> TRUE, ln |-> 0, h |-> {}, v |-> v]
IsDef(M, s) == s \in DOMAIN M \/ s \in {S_LINE, S_FILE}

\* replaces defined X and defined(X); the result is not expanded again
RECURSIVE Defd(_, _, _, _)
Defd(ts, i, o, M) ==
  IF i > Len(ts) THEN [e |-> "", o |-> o]
  ELSE IF ts[i].k = "id" /\ ts[i].s = S_defined THEN
    LET par == i < Len(ts) /\ IsOp(ts[i + 1], LPar)
        n == IF par THEN i + 2 ELSE i + 1
        ok == n <= Len(ts) /\ ts[n].k = "id" /\ (par => n < Len(ts) /\ IsOp(ts[n + 1], RPar))
    IN IF ~ok THEN [e |-> "expr", o |-> <<>>]
       ELSE Defd(ts, IF par THEN n + 2 ELSE n + 1, Append(o, ValTok(Bool(IsDef(M, ts[n].s)))), M)
  ELSE Defd(ts, i + 1, Append(o, ts[i]), M)

EvalIf(ts, M, F) ==
  LET d == Defd(ts, 1, <<>>, M) IN
  IF d.e # "" THEN EErr("expr")
  ELSE LET x == Expand(d.o, M, F) IN
    IF x.e # "" THEN EErr(x.e)
    ELSE IF x.u THEN EErr("big")
    ELSE LET d2 == Defd(x.o, 1, <<>>, M) IN   \* defined that results from an expansion
      IF d2.e # "" THEN EErr("expr")
      ELSE LET v == ECond(d2.o, FALSE) IN IF v.e = "" /\ v.r # <<>> THEN EErr("expr") ELSE v

--------------------------------------------------------------------------
(* Definitions *)

\* parameters: ts[i] is the first token after '('
RECURSIVE Params(_, _, _)
Params(ts, i, ps) ==
  IF i > Len(ts) THEN [ok |-> FALSE, ps |-> ps, next |-> 0]
  ELSE IF IsOp(ts[i], RPar) /\ ps = <<>> THEN [ok |-> TRUE, ps |-> ps, next |-> i + 1]
  ELSE IF ts[i].k # "id" \/ i = Len(ts) \/ (\E q \in 1..Len(ps) : ps[q] = ts[i].s) THEN [ok |-> FALSE, ps |-> ps, next |-> 0]
  ELSE IF IsOp(ts[i + 1], RPar) THEN [ok |-> TRUE, ps |-> Append(ps, ts[i].s), next |-> i + 2]
  ELSE IF IsOp(ts[i + 1], Comma) THEN
    (IF i + 2 <= Len(ts) /\ IsOp(ts[i + 2], RPar) THEN [ok |-> FALSE, ps |-> ps, next |-> 0] ELSE Params(ts, i + 2, Append(ps, ts[i].s)))
  ELSE [ok |-> FALSE, ps |-> ps, next |-> 0]

\* ts: the tokens after "define"
DefineOf(ts) ==
  IF ts = <<>> \/ ts[1].k # "id" \/ ts[1].s \in {S_defined, S_LINE, S_FILE, S_SCC} THEN [ok |-> FALSE]
  ELSE LET fn == Len(ts) > 1 /\ IsOp(ts[2], LPar) /\ ~ts[2].w
           pr == IF fn THEN Params(ts, 3, <<>>) ELSE [ok |-> TRUE, ps |-> <<>>, next |-> 2]
           body == SetW(SubSeq(ts, pr.next, Len(ts)), FALSE)
           m == [fn |-> fn, params |-> pr.ps, body |-> body]
           badhash == fn /\ (\E i \in 1..Len(body) : IsOp(body[i], Hash) /\ (i = Len(body) \/ ParamIdx(m, body[i + 1]) = 0))
           badpaste == body # <<>> /\ (IsOp(body[1], HashHash) \/ IsOp(body[Len(body)], HashHash))
       IN IF ~pr.ok \/ badhash \/ badpaste THEN [ok |-> FALSE] ELSE [ok |-> TRUE, n |-> ts[1].s, m |-> m]

--------------------------------------------------------------------------
(* The machine *)

Case == Cases[pid]
Top == files[Len(files)]
Us == Lexed[pid][Top.f].us
Unit == Us[Top.u]
FName == Case.files[Top.f].n
IsDirective(u) == u.ts # <<>> /\ IsOp(u.ts[1], Hash)
Live == \A i \in 1..Len(cond) : cond[i].st = "live"

Verdict(v, what) == res' = v /\ PrintT(<<"VERDICT", pid, v, what>>)

Same(a, b) == Len(a) = Len(b) /\ (\A i \in 1..Len(a) : a[i].s = b[i].s)
FirstDiff(a, b) == LET d == {i \in 1..Len(a) : i > Len(b) \/ a[i].s # b[i].s} IN
                   IF d = {} THEN Len(a) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j

Crash(rc) == rc < 0 /\ rc # -6

\* the model rejects the source; lines lo..hi of file F are the ones to blame (lo = 0: no particular one)
Reject(lo, hi, F) ==
  /\ IF Case.rc = 0 THEN Verdict("mismatch", <<"accepted", lo>>)
     ELSE IF Crash(Case.rc) THEN Verdict("mismatch", <<"crash", Case.rc>>)
     ELSE IF lo # 0 /\ Case.eline # 0 /\ ~(Case.eline >= lo /\ Case.eline <= hi /\ Case.efile = F) THEN Verdict("mismatch", <<"line", Case.eline, lo>>)
     ELSE Verdict("ok", "rejected")
  /\ UNCHANGED <<pid, files, cond, mac, out>>

Skip(why) == Verdict("skipped", why) /\ UNCHANGED <<pid, files, cond, mac, out>>

Advance(n) == files' = [files EXCEPT ![Len(files)].u = @ + n]

Accept ==
  LET real == OutToks[pid] IN
  IF Case.rc = -6 /\ Len(out) > 300 THEN Verdict("skipped", "capacity")
  ELSE IF Case.rc # 0 THEN Verdict("mismatch", <<"exit", Case.rc, Case.eline>>)
  ELSE IF Same(real, out) THEN Verdict("ok", Len(out))
  ELSE LET i == FirstDiff(out, real) IN
    Verdict("mismatch", <<"token", i, IF i <= Len(out) THEN out[i].s ELSE <<>>, IF i <= Len(real) THEN real[i].s ELSE <<>>>>)

AtEof ==
  /\ Top.u > Len(Us)
  /\ IF Lexed[pid][Top.f].bad \/ Len(cond) # Top.base THEN Reject(0, 0, FName)
     ELSE /\ files' = SubSeq(files, 1, Len(files) - 1)
          /\ IF Len(files) = 1 THEN Accept ELSE UNCHANGED res
          /\ UNCHANGED <<pid, cond, mac, out>>

\* a run of text lines
TextEnd == LET d == {i \in Top.u..Len(Us) : IsDirective(Us[i])} IN
           IF d = {} THEN Len(Us) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
Text ==
  /\ Top.u <= Len(Us) /\ ~IsDirective(Unit)
  /\ IF ~Live THEN Advance(TextEnd - Top.u) /\ UNCHANGED <<pid, cond, mac, out, res>>
     ELSE LET e == TextEnd
              ts == FoldLeft(LAMBDA a, i : a \o SetW(Us[i].ts, TRUE), <<>>, [i \in 1..(e - Top.u) |-> Top.u + i - 1])
              x == Expand(ts, mac, FName)
          IN IF x.e \in {"invalid paste", "capacity"} THEN Skip(x.e)
             ELSE IF x.e # "" THEN Reject(x.lo, IF x.hi = 99999 THEN Us[e - 1].hi + 1 ELSE x.hi, FName)
             ELSE IF x.u /\ Case.strict THEN Skip("unspecified")
             ELSE /\ out' = out \o x.o
                  /\ Advance(e - Top.u)
                  /\ UNCHANGED <<pid, cond, mac, res>>

Done(c, m) == Advance(1) /\ cond' = c /\ mac' = m /\ UNCHANGED <<pid, out, res>>
RejectHere == Reject(Unit.lo, Unit.hi, FName)

PushCond(live) == Append(cond, [st |-> IF ~Live THEN "done" ELSE IF live THEN "live" ELSE "wait", els |-> FALSE])
TopCond == cond[Len(cond)]
SetTop(st, els) == [cond EXCEPT ![Len(cond)] = [st |-> st, els |-> els]]

IfDirective(ts, elif) ==
  LET v == EvalIf(ts, mac, FName) IN
  IF v.e = "big" THEN Skip("big")
  ELSE IF v.e \in {"invalid paste", "capacity"} THEN Skip(v.e)
  ELSE IF v.e # "" THEN RejectHere
  ELSE IF elif THEN Done(IF v.v # 0 THEN SetTop("live", FALSE) ELSE cond, mac)
  ELSE Done(PushCond(v.v # 0), mac)

FileIdx(n) == {f \in 1..Len(Case.files) : Case.files[f].n = n}

IncludeDirective(ts0) ==
  LET angle(ts) == IF ts # <<>> /\ IsOp(ts[1], <<60>>) /\ (\E i \in 1..Len(ts) : IsOp(ts[i], <<62>>))
                   THEN LET e == CHOOSE i \in 1..Len(ts) : IsOp(ts[i], <<62>>) /\ (\A j \in 1..(i - 1) : ~IsOp(ts[j], <<62>>))
                        IN FoldLeft(LAMBDA a, i : (IF ts[i].w /\ i > 2 THEN Append(a, 32) ELSE a) \o ts[i].s, <<>>, [i \in 1..(e - 2) |-> i + 1])
                   ELSE <<>>
      x == IF ts0 # <<>> /\ ts0[1].k = "id" THEN Expand(ts0, mac, FName) ELSE [e |-> "", o |-> ts0, u |-> FALSE, m |-> "", n |-> 0]
      n == IF x.e # "" \/ x.o = <<>> THEN <<>>
           ELSE IF x.o[1].k = "str" THEN SubSeq(x.o[1].s, 2, Len(x.o[1].s) - 1)
           ELSE angle(x.o)
      fs == FileIdx(n)
  IN IF n = <<>> THEN RejectHere
     ELSE IF fs = {} THEN Reject(0, 0, FName)
     ELSE /\ files' = Append([files EXCEPT ![Len(files)].u = @ + 1], [f |-> CHOOSE f \in fs : TRUE, u |-> 1, base |-> Len(cond)])
          /\ UNCHANGED <<pid, cond, mac, out, res>>

Directive ==
  /\ Top.u <= Len(Us) /\ IsDirective(Unit)
  /\ LET ts == Unit.ts
         name == IF Len(ts) > 1 THEN (IF ts[2].k = "id" THEN ts[2].s ELSE <<0>>) ELSE <<>>
         args == SubSeq(ts, 3, Len(ts))
         open == Len(cond) > Top.base
         isname == args # <<>> /\ args[1].k = "id"
     IN CASE name = S_if -> IF Live THEN IfDirective(args, FALSE) ELSE Done(PushCond(FALSE), mac)
          [] name \in {S_ifdef, S_ifndef} ->
               IF ~Live THEN Done(PushCond(FALSE), mac)
               ELSE IF ~isname THEN RejectHere
               ELSE Done(PushCond(IsDef(mac, args[1].s) = (name = S_ifdef)), mac)
          [] name = S_elif ->
               IF ~open \/ TopCond.els THEN RejectHere
               ELSE IF TopCond.st = "wait" THEN IfDirective(args, TRUE)
               ELSE Done(SetTop("done", FALSE), mac)
          [] name = S_else ->
               IF ~open \/ TopCond.els THEN RejectHere
               ELSE Done(SetTop(IF TopCond.st = "wait" THEN "live" ELSE "done", TRUE), mac)
          [] name = S_endif ->
               IF ~open THEN RejectHere ELSE Done(SubSeq(cond, 1, Len(cond) - 1), mac)
          [] ~Live \/ name = <<>> \/ name \in {S_pragma, S_line} -> Done(cond, mac)
          [] Live /\ name = S_define ->
               LET d == DefineOf(args) IN
               IF ~d.ok THEN RejectHere
               ELSE Done(cond, [x \in DOMAIN mac \cup {d.n} |-> IF x = d.n THEN d.m ELSE mac[x]])
          [] Live /\ name = S_undef ->
               IF ~isname THEN RejectHere
               ELSE Done(cond, [x \in DOMAIN mac \ {args[1].s} |-> mac[x]])
          [] Live /\ name = S_include -> IncludeDirective(args)
          [] Live /\ name = S_error -> RejectHere
          [] OTHER -> RejectHere

Predef == S_SCC :> [fn |-> FALSE, params |-> <<>>, body |-> <<Tok("num", <<49>>, FALSE, 0)>>]

Init ==
  /\ pid \in 1..Len(Cases)
  /\ files = <<[f |-> 1, u |-> 1, base |-> 0]>>
  /\ cond = <<>>
  /\ mac = Predef
  /\ out = <<>>
  /\ res = "run"

Next == res = "run" /\ (AtEof \/ Text \/ Directive)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* Properties of the specification itself, checked on every state *)
TypeOK ==
  /\ res \in {"run", "ok", "mismatch", "skipped"}
  /\ \A i \in 1..Len(cond) : cond[i].st \in {"live", "wait", "done"}
  /\ \A i \in 1..Len(files) : files[i].base <= Len(cond)
\* a group can only be live or waiting when everything around it is live
Nesting == \A i \in 1..Len(cond) : \A j \in 1..(i - 1) : cond[i].st # "done" => cond[j].st = "live"
\* nothing that is still a use of an object-like macro is ever written, except names hidden by their own expansion
Finished == \A i \in 1..Len(out) : out[i].k # "id" \/ out[i].s \notin {S_LINE, S_FILE}
=============================================================================
