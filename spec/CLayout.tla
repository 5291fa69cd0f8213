------------------------------ MODULE CLayout -------------------------------
(***************************************************************************)
(* Judges what the real compiler made of several layouts of one program:   *)
(* texts whose tokens are the same must give the same COM file and map.    *)
(* And judges values of literals: each case of kind "lit" has spellings    *)
(* and the values the compiled program observed for them; each case of     *)
(* kind "shift" has fillers put in front of a program.                     *)
(***************************************************************************)
EXTENDS CLex, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.LAY_CASES)
VARIABLES pid, res
vars == <<pid, res>>
C == Cases[pid]

\* the texts of a case: the first is the reference; img is the number of the distinct outcome, 0 if rejected
Layout ==
  LET ref == Lex(C.texts[1].b)
      want == Spelled(ref.t)
      same(i) == LET x == Lex(C.texts[i].b) IN x.bad = 0 /\ Spelled(x.t) = want
      bad == {i \in 2..Len(C.texts) : C.texts[i].img # C.texts[1].img /\ same(i)}
      skipped == {i \in 2..Len(C.texts) : C.texts[i].img = C.texts[1].img /\ ~same(i)}
  IN IF ref.bad # 0 THEN <<"skipped", 0>>
     ELSE IF bad # {} THEN <<"mismatch", CHOOSE i \in bad : \A j \in bad : i <= j>>
     ELSE <<"ok", Cardinality(skipped), Len(ref.t)>>

\* every literal is one token whose values are those observed (a string's with the terminator)
Lits ==
  LET good(x) == LET l == Lex(x.b) IN
        \/ l.bad # 0
        \/ /\ Len(l.t) = 1
           /\ x.obs = IF l.t[1].k = "num" THEN l.t[1].v ELSE [i \in 1..Len(l.t[1].v) |-> SChar(l.t[1].v[i]) % 65536] \o <<0>>
      bad == {i \in 1..Len(C.lits) : ~good(C.lits[i])}
  IN IF bad # {} THEN <<"mismatch", CHOOSE i \in bad : \A j \in bad : i <= j>>
     ELSE <<"ok", Cardinality({i \in 1..Len(C.lits) : Lex(C.lits[i].b).bad # 0}), Len(C.lits)>>

\* a filler that leaves the machine where it started, but for the line, can't change what follows
Shift ==
  LET blank(f) == LET r == FoldLeft(LStep, L0, f) IN r.m = "base" /\ r.nl /\ r.t = <<>> /\ r.bad = 0
      bad == {i \in 1..Len(C.fills) : ~C.fills[i].same /\ blank(C.fills[i].b)}
  IN IF bad # {} THEN <<"mismatch", CHOOSE i \in bad : \A j \in bad : i <= j>> ELSE <<"ok", 0, 0>>

Init == pid \in 1..Len(Cases) /\ res = "run"
Judge == /\ res = "run"
         /\ LET v == CASE C.kind = "lit" -> Lits [] C.kind = "shift" -> Shift [] OTHER -> Layout
            IN PrintT(<<"VERDICT", pid, v>>) /\ res' = v[1]
         /\ UNCHANGED pid
Spec == Init /\ [][Judge]_vars
=============================================================================
