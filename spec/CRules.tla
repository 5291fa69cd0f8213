------------------------------- MODULE CRules -------------------------------
(***************************************************************************)
(* The rules a program has to keep beyond its grammar, as a table of what  *)
(* each construct demands of its operands, and what the real compiler did  *)
(* with every construct applied to every kind of operand in every context. *)
(*                                                                         *)
(* A case has an expectation: "ok" (has to be compiled), "bad" (has to be  *)
(* rejected, at the line it is on, leaving the output file alone) or       *)
(* "free" (C and the dialect differ, or C leaves it open: the compiler may *)
(* do either, but may not crash or touch the file when it rejects).        *)
(* The grid of states is explored by TLC; Sound is checked in each state.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CLex

Cases == ndJsonDeserialize(IOEnv.RULE_CASES)
VARIABLES i, done
vars == <<i, done>>

--------------------------------------------------------------------------
\* Operands: type, what it points to or consists of, lvalue, integer constant expression
Kd(t, e, lv, c) == [t |-> t, e |-> e, lv |-> lv, c |-> c]
Kind(k) ==
  CASE k \in {"1", "E", "sizeof(int)", "'a'", "(E + 3)", "-(-4)"} -> Kd("int", "", FALSE, TRUE)
    [] k \in {"gi", "li", "gu", "gc", "luc", "ga[1]", "gaa[1][2]", "*gp", "*lp", "gsp->a", "lsp->b", "ls.b", "gs.arr[1]", "gcp[2]", "(gi)", "pi", "st", "un.i"} -> Kd("int", "", TRUE, FALSE)
    [] k \in {"gi + 1", "f(1)", "(char)gi", "(*fp)(2)", "gi++", "-li", "gi & 3", "gp - lp"} -> Kd("int", "", FALSE, FALSE)
    [] k \in {"gi == 1", "!gi", "gi && li", "gc < 5"} -> Kd("bool", "", FALSE, FALSE)
    [] k \in {"gp", "lp", "gsp->ip", "pp"} -> Kd("ptr", "int", TRUE, FALSE)
    [] k = "gcp" -> Kd("ptr", "char", TRUE, FALSE)
    [] k \in {"gsp", "lsp", "gsp->n", "gs.n", "*gspp"} -> Kd("ptr", "struct", TRUE, FALSE)
    [] k \in {"&gi", "(int*)gi", "gp + 1", "&ga[1]"} -> Kd("ptr", "int", FALSE, FALSE)
    [] k \in {"&gs", "gsp + 1"} -> Kd("ptr", "struct", FALSE, FALSE)
    [] k \in {"gs", "ls", "*gsp", "gsa[1]", "lsp->in", "gsp[0]"} -> Kd("struct", "", TRUE, FALSE)
    [] k \in {"ga", "la", "gs.arr"} -> Kd("arr", "int", TRUE, FALSE)
    [] k \in {"gaa", "gsa"} -> Kd("arr", "other", TRUE, FALSE)
    [] k = "\"str\"" -> Kd("arr", "char", TRUE, FALSE)
    [] k = "f" -> Kd("fn", "", FALSE, FALSE)
    [] k = "fp" -> Kd("fnptr", "", TRUE, FALSE)
    [] k = "v()" -> Kd("void", "", FALSE, FALSE)
    \* the dialect takes some of these for lvalues
    [] k \in {"gi ? 1 : 2", "gi = 2", "gi, li", "gi = li", "++gi"} -> Kd("loose", "", FALSE, FALSE)

Scalar == {"int", "bool", "ptr"}
Is(S, x, other) == IF x.t \in S THEN "ok" ELSE other
NotStruct(x) == IF x.t = "struct" THEN "bad" ELSE IF x.t \in Scalar THEN "ok" ELSE "free"
Rule(t, k) ==
  LET x == Kind(k) IN
  CASE t = "*X" -> (IF x.t \in {"ptr", "arr"} THEN "ok" ELSE IF x.t \in {"fn", "fnptr"} THEN "free" ELSE "bad")
    [] t = "&X" -> (IF x.t = "loose" THEN "free" ELSE IF x.lv \/ x.t = "fn" THEN "ok" ELSE "bad")
    [] t \in {"-X", "~X"} -> (CASE x.t = "int" -> "ok" [] x.t \in {"bool", "loose"} -> "free" [] OTHER -> "bad")
    [] t = "!X" -> NotStruct(x)
    [] t \in {"++X", "X--"} -> (CASE x.t = "loose" -> "free" [] x.t \in {"int", "ptr"} -> (IF x.lv THEN "ok" ELSE "bad") [] x.t = "fnptr" -> "free" [] OTHER -> "bad")
    [] t = "X[0]" -> Is({"ptr", "arr"}, x, IF x.t = "fnptr" THEN "free" ELSE "bad")
    [] t \in {"X()", "X(1)"} -> Is({"fn", "fnptr"}, x, "bad")
    [] t = "X.a" -> (IF x.t = "struct" THEN "ok" ELSE "bad")
    [] t = "X->a" -> (IF x.t = "ptr" /\ x.e = "struct" THEN "ok" ELSE IF x.t = "arr" /\ x.e = "other" THEN "free" ELSE "bad")
    [] t \in {"X.nosuch", "X->nosuch"} -> "bad"
    [] t = "X = 0" -> (CASE x.t = "loose" -> "free" [] x.t \in {"int", "ptr", "fnptr"} /\ x.lv -> (IF x.t = "fnptr" THEN "free" ELSE "ok") [] OTHER -> "bad")
    [] t = "X += 1" -> (CASE x.t = "loose" -> "free" [] x.t \in {"int", "ptr"} /\ x.lv -> "ok" [] x.t = "fnptr" -> "free" [] OTHER -> "bad")
    [] t = "X *= 2" -> (CASE x.t = "loose" -> "free" [] x.t = "int" /\ x.lv -> "ok" [] x.t \in {"ptr", "fnptr"} /\ x.lv -> "free" [] OTHER -> "bad")
    [] t \in {"if X", "while X", "for X", "switch X", "gi = X", "X && 1", "gi || X", "(int)X", "return X"} -> NotStruct(x)
    [] t = "(void)X" -> "ok"
    [] t = "X;" -> "ok"
    [] t \in {"case X", "z[X]", "Q = X", "_emit X", "X-init"} -> (IF x.c THEN "ok" ELSE IF k = "gi = 2" THEN "free" ELSE "bad")
    [] t = "gp = X" -> (IF x.t = "struct" THEN "bad" ELSE IF x.t \in {"ptr", "arr"} /\ x.e = "int" THEN "ok" ELSE "free")
    [] t = "gs = X" -> (IF x.t = "struct" /\ k # "lsp->in" THEN "ok" ELSE "bad")
    [] t = "f(X)" -> (IF x.t \in {"struct", "void"} THEN "bad" ELSE IF x.t = "int" THEN "ok" ELSE "free")
    [] t = "sizeof(X)" -> (IF x.t \in {"int", "ptr", "struct", "arr"} /\ ~x.c THEN "ok" ELSE "free")
    [] t \in {"X + 1", "X - 1"} -> (CASE x.t = "struct" -> "bad" [] x.t \in {"int", "ptr"} -> "ok" [] OTHER -> "free")
    [] t \in {"X * 2", "gi & X", "gi << X"} -> (CASE x.t = "struct" -> (IF t = "X * 2" THEN "bad" ELSE "free") [] x.t = "int" -> "ok" [] OTHER -> "free")
    [] t \in {"X - X", "X == X"} -> (CASE x.t = "struct" -> "bad" [] x.t \in {"int", "ptr"} /\ ~x.c -> "ok" [] OTHER -> "free")
    [] t = "X == 0" -> (CASE x.t = "struct" -> "bad" [] x.t \in {"int", "ptr"} /\ ~x.c -> "ok" [] OTHER -> "free")
    [] t = "gi ? X : X" -> (IF x.t \in {"int", "ptr"} THEN "ok" ELSE "free")

\* A table limit: up to lim always works, above hard it can't
Limit(n, lim, hard) == IF n <= lim THEN "ok" ELSE IF n > hard THEN "bad" ELSE "free"

\* One operand spelled with the given characters: a literal if CLex reads exactly one, and nothing else is an operand.
\* C has escapes the dialect needn't: \a \b \e \f \v \? and hexadecimal ones of any length; a 0x without digits is 0 in the dialect; an octal one above 377
FreeEsc == {97, 98, 101, 102, 118, 63}
OctBig(b) == \E j \in 1..Len(b) - 3 : b[j] = 92 /\ b[j + 1] \in 52..55 /\ b[j + 2] \in 48..55 /\ b[j + 3] \in 48..55
FreeLit(b) == OctBig(b) \/ (\E j \in 1..Len(b) - 1 : b[j] = 92 /\ b[j + 1] \in FreeEsc) \/ (\E j \in 1..Len(b) - 1 : b[j] = 92 /\ b[j + 1] = 120) \/ (\E j \in 1..Len(b) - 1 : b[j] = 48 /\ b[j + 1] \in {120, 88} /\ (j = Len(b) - 1 \/ HexV(b[j + 2]) = 99))
Lits(b) ==
  LET l == Lex(b \o <<32, 59>>)
      one == l.bad = 0 /\ Len(l.t) = 2 /\ l.t[1].k \in {"num", "str"} /\ l.t[2].s = <<59>> /\ l.ln = 1
      odd == \E j \in 1..Len(b) : (b[j] < 32 /\ ~LIsWs(b[j])) \/ b[j] > 126          \* white space to the dialect, outside of literals
  IN IF one THEN "ok" ELSE IF FreeLit(b) \/ (LIsDig(b[1]) /\ odd) THEN "free" ELSE IF l.bad # 0 THEN "bad" ELSE "free"

Expect(c) == CASE c.k = "lit" -> Lits(c.b) [] c.k = "op" -> Rule(c.t, c.x) [] c.k = "limit" -> Limit(c.n, c.lim, c.hard) [] OTHER -> c.e

--------------------------------------------------------------------------
\* rc: exit code (2: crash or hang), line: named in the diagnostic, lo..hi: the lines the fault can be named at, out: output file touched
Verdict(c) ==
  LET e == Expect(c)
  IN CASE c.rc \notin {0, 1} -> "crash"
       [] c.rc = 1 /\ c.out -> "output written"
       [] e = "ok" /\ c.rc = 1 -> "rejected"
       [] e = "bad" /\ c.rc = 0 -> "accepted"
       [] c.rc = 1 /\ (c.line < c.lo \/ c.line > c.hi) -> "line"
       [] OTHER -> "ok"

\* the grid is complete: every construct with every operand in every context
Grid == {<<c.t, c.x, c.cx>> : c \in {Cases[j] : j \in {j \in 1..Len(Cases) : Cases[j].k = "op"}}}
Complete == LET T == {g[1] : g \in Grid} X == {g[2] : g \in Grid} C == {g[3] : g \in Grid} IN Cardinality(Grid) = Cardinality(T) * Cardinality(X) * Cardinality(C)
ASSUME Complete

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED i /\ PrintT(<<"VERDICT", i, Verdict(Cases[i]), Expect(Cases[i])>>)
Spec == Init /\ [][Next]_vars
\* (judged through the printed verdicts, so that all failing cases are listed)
Sound == Verdict(Cases[i]) \in {"ok", "crash", "output written", "rejected", "accepted", "line"}
=============================================================================
