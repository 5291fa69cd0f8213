------------------------------ MODULE SelfHost ------------------------------
(***************************************************************************)
(* A tool is a function of its input.  The same tool exists as a program   *)
(* of the host, as a COM file run by the host's sim86, and as a COM file   *)
(* run by a sim86 that is itself a COM file run by sim86; whichever        *)
(* instance is asked, the outcome (exit code, what was written to the      *)
(* console, the files left behind) is the same.                            *)
(*                                                                         *)
(* A case is one input with the runs of several instances.  The first run  *)
(* defines the value of the function; every later run has to agree.        *)
(* Outcome says what is observable about a run and abstracts from what the *)
(* tools are known to tell differently: the source line of the tool itself *)
(* in the messages of native builds, the dump of return addresses in those *)
(* of hosted ones, the way a failed assertion ends the tool, and the       *)
(* segment the simulator puts a program at.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.SELF_CASES)
VARIABLES pid, i, f
vars == <<pid, i, f>>

--------------------------------------------------------------------------
(* Characters *)
Dig == 48..57
HexDig == Dig \cup 65..70
S_In     == <<73, 110, 32>>                               \* "In "
S_InLine == <<73, 110, 32, 108, 105, 110, 101, 32>>       \* "In line "
S_Back   == <<66, 80, 32, 32, 32, 82, 101, 116, 117, 114, 110, 32, 97, 100, 100, 114, 101, 115, 115>>   \* "BP   Return address"
S_Sas    == <<115, 97, 115, 46, 99, 58>>                  \* "sas.c:"
S_Assert == <<65, 115, 115, 101, 114, 116, 105, 111, 110, 32, 102, 97, 105, 108, 101, 100>>             \* "Assertion failed"
S_AssertN == <<65, 115, 115, 101, 114, 116, 105, 111, 110, 32, 96>>   \* "Assertion `"

HasAt(l, p, s) == p >= 1 /\ p + Len(s) - 1 <= Len(l) /\ SubSeq(l, p, p + Len(s) - 1) = s
Find(l, s) == LET P == {p \in 1..Len(l) : l[p] = s[1] /\ HasAt(l, p, s)} IN IF P = {} THEN 0 ELSE CHOOSE p \in P : \A q \in P : p <= q
Clip(l) == IF Len(l) > 200 THEN SubSeq(l, 1, 200) ELSE l

--------------------------------------------------------------------------
(* What the messages of the instances have in common *)
\* native scc: "In FILE:N: In line L: message"
SccLine(l) == LET p == Find(l, S_InLine)  q == Find(l, S_In) IN
              IF p > 2 /\ q < p /\ HasAt(l, p - 2, <<58, 32>>) /\ \A k \in (q + 3)..(p - 3) : l[k] # 32 THEN SubSeq(l, 1, q - 1) \o SubSeq(l, p, Len(l)) ELSE l
\* native sas: a line "FILE:N: " before the message
SasLine(l) == LET p == Find(Clip(l), S_Sas) IN
              IF p > 0 /\ Len(l) >= p + 8 /\ HasAt(l, Len(l) - 1, <<58, 32>>) /\ \A q \in (p + 6)..(Len(l) - 2) : l[q] \in Dig THEN <<>> ELSE l
\* native sim86: the usage mentions [-p]
S_Usage == <<85, 115, 97, 103, 101, 58, 32>>
UsageLine(l) == IF HasAt(l, 1, S_Usage) THEN LET p == Find(l, <<91, 45, 112, 93, 32>>) IN IF p > 0 THEN SubSeq(l, 1, p - 1) \o SubSeq(l, p + 5, Len(l)) ELSE l ELSE l
\* sim86 -v: "open(NAME, host flags) -> handle"
S_Open == <<111, 112, 101, 110, 40>>
S_Arrow == <<41, 32, 45, 62, 32>>
OpenLine(l) == IF HasAt(l, 1, S_Open) THEN LET p == Find(l, S_Arrow)  c == {q \in 6..p : l[q] = 44} IN
                 IF p > 0 /\ c # {} THEN LET q == CHOOSE q \in c : \A k \in c : k <= q IN SubSeq(l, 1, q) \o SubSeq(l, p, Len(l)) ELSE l
               ELSE l
SimLine(l) == OpenLine(UsageLine(l))
\* hosted scc and scpp: on a new line, a heading and up to ten lines of two hexadecimal numbers
IsHexPair(l) == /\ \E p \in 2..Len(l) : l[p] = 32 /\ \A q \in 1..Len(l) : q = p \/ l[q] \in HexDig
IsBack(l) == HasAt(l, 1, S_Back)
Backtrace(ls) ==
  LET hs == {j \in 1..Len(ls) : IsBack(ls[j])} IN
  IF hs = {} THEN ls
  ELSE LET h == CHOOSE j \in hs : \A k \in hs : j <= k
           ends == {j \in (h + 1)..(Len(ls) + 1) : j = Len(ls) + 1 \/ (j <= Len(ls) /\ ~IsHexPair(ls[j]))}
           e == CHOOSE j \in ends : \A k \in ends : j <= k
       IN IF h = 1 THEN SubSeq(ls, e, Len(ls))
          ELSE SubSeq(ls, 1, h - 2) \o (IF e > Len(ls) THEN <<ls[h - 1]>> ELSE <<ls[h - 1] \o ls[e]>>) \o SubSeq(ls, e + 1, Len(ls))

MapLines(ls, F(_)) == [j \in 1..Len(ls) |-> F(ls[j])]
\* lines end as the platform's consoles do, LF or CR LF
RECURSIVE NoCR(_)
NoCR(l) == IF l # <<>> /\ l[Len(l)] = 13 THEN NoCR(SubSeq(l, 1, Len(l) - 1)) ELSE l
Console(tool, e) ==
  LET con == MapLines(e.con, NoCR) IN
  CASE tool = "scc" /\ e.on = "native" -> MapLines(con, SccLine)
    [] tool = "sas" /\ e.on = "native" -> MapLines(con, SasLine)
    [] tool = "sim86" /\ e.on = "native" -> MapLines(con, SimLine)
    [] tool = "sim86" -> MapLines(con, OpenLine)
    [] tool \in {"scc", "scpp"} /\ e.on # "native" -> Backtrace(con)
    [] OTHER -> con

\* the tool gave up on one of its own limits
Asserted(tool, e) == tool \in {"scpp", "sim86"} /\
  \/ e.rc < 0 /\ \E j \in 1..Len(e.con) : Find(e.con[j], S_AssertN) > 0
  \/ e.on # "native" /\ e.rc = 1 /\ \E j \in 1..Len(e.con) : HasAt(e.con[j], 1, S_Assert)

Outcome(tool, e) ==
  IF Asserted(tool, e) THEN [rc |-> 256, con |-> <<>>, files |-> <<>>, steps |-> <<>>, base |-> e.base]
  ELSE [rc |-> e.rc, con |-> Console(tool, e), files |-> e.files, steps |-> e.steps, base |-> e.base]

--------------------------------------------------------------------------
(* Agreement.  A value may be a segment: relative to where the program was put *)
Word(x, y, d) == y = x \/ y = (x + d + 65536) % 65536
StepAgrees(a, b, d) == a.t = b.t /\ \A k \in 1..Len(a.r) : Word(a.r[k], b.r[k], d)
FirstStep(a, b, d) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                          P == {j \in 1..n : ~StepAgrees(a[j], b[j], d)}
                      IN IF P = {} THEN n + 1 ELSE CHOOSE j \in P : \A k \in P : j <= k
FirstLine(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                       P == {j \in 1..n : a[j] # b[j]}
                   IN IF P = {} THEN n + 1 ELSE CHOOSE j \in P : \A k \in P : j <= k
Disagree(a, b) ==
  IF a.rc # b.rc THEN <<"exit code", a.rc, b.rc>>
  ELSE IF a.con # b.con THEN LET j == FirstLine(a.con, b.con) IN <<"console line", j, IF j <= Len(a.con) THEN Clip(a.con[j]) ELSE <<>>, IF j <= Len(b.con) THEN Clip(b.con[j]) ELSE <<>>>>
  ELSE IF Len(a.files) # Len(b.files) THEN <<"number of files", Len(a.files), Len(b.files)>>
  ELSE IF a.files # b.files THEN LET j == FirstLine(a.files, b.files) IN <<"file", a.files[j].n, b.files[j].n>>
  ELSE IF Len(a.steps) # Len(b.steps) THEN <<"number of instructions", Len(a.steps), Len(b.steps)>>
  ELSE LET d == b.base - a.base  j == FirstStep(a.steps, b.steps, d) IN IF j <= Len(a.steps) THEN <<"instruction", j, a.steps[j].t, b.steps[j].t>> ELSE <<>>

Init == pid \in 1..Len(Cases) /\ i = 0 /\ f = [rc |-> -1]
Next == LET c == Cases[pid] IN
  /\ i < Len(c.ev) /\ i' = i + 1 /\ UNCHANGED pid
  /\ IF i = 0 THEN f' = Outcome(c.tool, c.ev[1])
     ELSE LET d == Disagree(f, Outcome(c.tool, c.ev[i + 1])) IN
          /\ f' = f
          /\ PrintT(<<"VERDICT", pid, i + 1, IF d = <<>> THEN <<"ok", f.rc>> ELSE <<"mismatch", d>>>>)
Spec == Init /\ [][Next]_vars
=============================================================================
