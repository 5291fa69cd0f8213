-------------------------------- MODULE CLex --------------------------------
(***************************************************************************)
(* The lexical structure of the C dialect: a machine that reads one        *)
(* character per step and gives the tokens, their values and their lines.  *)
(* White space, comments and lines starting with # separate tokens and     *)
(* mean nothing else.  An operator is the longest one the characters give. *)
(* Characters are numbers; a token is [k: kind, s: spelling (identifiers,  *)
(* operators), v: values (one for a number, the bytes of a string),        *)
(* ln: line].  Used by CLayout, CMunch and CSyn.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LIsDig(c) == c >= 48 /\ c <= 57
LIsIdS(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95
LIsIdC(c) == LIsDig(c) \/ LIsIdS(c)
LIsWs(c)  == c = 32 \/ (c >= 9 /\ c <= 13)
HexV(c) == IF LIsDig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
SChar(v) == IF v >= 128 THEN v - 256 ELSE v

Ops == {<<59>>, <<40>>, <<41>>, <<123>>, <<125>>, <<91>>, <<93>>, <<58>>, <<126>>, <<44>>, <<63>>,          \* ; ( ) { } [ ] : ~ , ?
        <<61>>, <<61,61>>, <<33>>, <<33,61>>,                                                               \* = == ! !=
        <<60>>, <<60,61>>, <<60,60>>, <<60,60,61>>, <<62>>, <<62,61>>, <<62,62>>, <<62,62,61>>,             \* < <= << <<= and with >
        <<38>>, <<38,38>>, <<38,61>>, <<124>>, <<124,124>>, <<124,61>>, <<94>>, <<94,61>>,                  \* & && &= | || |= ^ ^=
        <<43>>, <<43,43>>, <<43,61>>, <<45>>, <<45,45>>, <<45,61>>, <<45,62>>,                              \* + ++ += - -- -= ->
        <<42>>, <<42,61>>, <<47>>, <<47,61>>, <<37>>, <<37,61>>, <<46>>, <<46,46,46>>}                      \* * *= / /= % %= . ...
OpPrefix == UNION {{SubSeq(o, 1, n) : n \in 1..Len(o)} : o \in Ops}

\* value of a number's spelling, modulo 65536; -1 if it isn't one (the dialect takes 0x for 0)
NumVal(s) ==
  LET hex == Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
      base == IF hex THEN 16 ELSE IF s[1] = 48 THEN 8 ELSE 10
      ds == IF hex THEN SubSeq(s, 3, Len(s)) ELSE s
  IN IF \E i \in 1..Len(ds) : HexV(ds[i]) >= base THEN -1
     ELSE FoldLeft(LAMBDA a, c : (a * base + HexV(c)) % 65536, 0, ds)

L0 == [m |-> "base", ln |-> 1, nl |-> TRUE, cur |-> <<>>, st |-> 1, q |-> 0, esc |-> "", ev |-> 0, en |-> 0, t |-> <<>>, bad |-> 0]

Bad(a) == IF a.bad = 0 THEN [a EXCEPT !.bad = a.ln] ELSE a
Emit(a, k, s, v) == [a EXCEPT !.m = "base", !.cur = <<>>, !.t = Append(@, [k |-> k, s |-> s, v |-> v, ln |-> a.st])]
Start(a, m, c) == [a EXCEPT !.m = m, !.cur = c, !.st = a.ln, !.nl = FALSE]

\* a character that doesn't continue a token
Base(a, c) ==
  CASE c = 0 -> a
    [] LIsWs(c) -> IF c = 10 THEN [a EXCEPT !.nl = TRUE] ELSE a
    [] c = 35 /\ a.nl -> [a EXCEPT !.m = "lc"]
    [] LIsIdS(c) -> Start(a, "id", <<c>>)
    [] LIsDig(c) -> Start(a, "num", <<c>>)
    [] c = 34 \/ c = 39 -> [Start(a, "lit", <<>>) EXCEPT !.q = c, !.esc = ""]
    [] <<c>> \in OpPrefix -> Start(a, "op", <<c>>)
    [] OTHER -> Bad([a EXCEPT !.nl = FALSE])

EndLit(a) ==
  IF a.q = 39 THEN (IF Len(a.cur) = 1 THEN Emit(a, "num", <<>>, <<SChar(a.cur[1]) % 65536>>) ELSE Bad(Emit(a, "num", <<>>, <<0>>)))
  ELSE LET n == Len(a.t)
       IN IF n > 0 /\ a.t[n].k = "str"                                  \* adjacent strings are one
          THEN [a EXCEPT !.m = "base", !.cur = <<>>, !.t[n].v = @ \o a.cur]
          ELSE Emit(a, "str", <<>>, a.cur)

InLit(a, c) ==
  CASE c = 0 \/ c = 10 -> [Bad(a) EXCEPT !.m = "base"]
    [] c = a.q -> EndLit(a)
    [] c = 92 -> [a EXCEPT !.esc = "e"]
    [] OTHER -> [a EXCEPT !.cur = Append(@, c)]

Simple == [c \in {110, 114, 116, 39, 34, 92} |-> CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c]

Lit(a, c) ==
  CASE a.esc = "" -> InLit(a, c)
    [] a.esc = "e" ->
         (CASE c \in DOMAIN Simple -> [a EXCEPT !.esc = "", !.cur = Append(@, Simple[c])]
            [] c = 120 -> [a EXCEPT !.esc = "x", !.ev = 0, !.en = 0]
            [] c >= 48 /\ c <= 55 -> [a EXCEPT !.esc = "o", !.ev = c - 48, !.en = 1]
            [] OTHER -> Bad([a EXCEPT !.esc = ""]))
    [] a.esc = "x" /\ HexV(c) < 16 /\ a.en < 2 -> [a EXCEPT !.ev = @ * 16 + HexV(c), !.en = @ + 1]
    [] a.esc = "o" /\ c >= 48 /\ c <= 55 /\ a.en < 3 -> [a EXCEPT !.ev = @ * 8 + c - 48, !.en = @ + 1]
    [] OTHER ->
         LET d == [a EXCEPT !.esc = "", !.cur = Append(@, a.ev % 256)]
         IN InLit(IF a.esc = "x" /\ (a.en = 0 \/ HexV(c) < 16) THEN Bad(d) ELSE IF a.ev > 255 THEN Bad(d) ELSE d, c)

EndNum(a) == LET v == NumVal(a.cur) IN IF v < 0 THEN Bad(Emit(a, "num", <<>>, <<0>>)) ELSE Emit(a, "num", <<>>, <<v>>)
EndOp(a) == IF a.cur \in Ops THEN Emit(a, "op", a.cur, <<>>) ELSE Bad([a EXCEPT !.m = "base", !.cur = <<>>])

Line(a, c) == IF c = 10 THEN [a EXCEPT !.ln = @ + 1] ELSE a

LStep(a, c) ==
  LET r ==
    CASE a.m = "base" -> Base(a, c)
      [] a.m = "lc" -> IF c = 10 THEN [a EXCEPT !.m = "base", !.nl = TRUE] ELSE a
      [] a.m = "bc" -> IF c = 0 THEN Bad(a) ELSE [a EXCEPT !.m = IF c = 42 THEN "bs" ELSE "bc"]
      [] a.m = "bs" -> IF c = 0 THEN Bad(a) ELSE [a EXCEPT !.m = IF c = 42 THEN "bs" ELSE IF c = 47 THEN "base" ELSE "bc"]
      [] a.m = "id" -> IF LIsIdC(c) THEN [a EXCEPT !.cur = Append(@, c)] ELSE Base(Emit(a, "id", a.cur, <<>>), c)
      [] a.m = "num" -> IF LIsIdC(c) THEN [a EXCEPT !.cur = Append(@, c)] ELSE Base(EndNum(a), c)
      [] a.m = "lit" -> Lit(a, c)
      [] a.m = "op" -> IF a.cur = <<47>> /\ c = 47 THEN [a EXCEPT !.m = "lc", !.cur = <<>>]
                       ELSE IF a.cur = <<47>> /\ c = 42 THEN [a EXCEPT !.m = "bc", !.cur = <<>>]
                       ELSE IF Append(a.cur, c) \in OpPrefix THEN [a EXCEPT !.cur = Append(@, c)]
                       ELSE Base(EndOp(a), c)
  IN Line(r, c)

\* the tokens of a text, and the line of its first bad character (0: none)
Lex(b) == LET r == LStep(FoldLeft(LStep, L0, b), 0) IN [t |-> r.t, bad |-> r.bad, ln |-> r.ln]
Spelled(t) == [i \in 1..Len(t) |-> [k |-> t[i].k, s |-> t[i].s, v |-> t[i].v]]
=============================================================================
