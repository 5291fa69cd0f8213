------------------------------ MODULE CImgOrd -------------------------------
(***************************************************************************)
(* Every order of declaring, defining and using one function f and one     *)
(* object v, as the one-pass compiler with lists of pending references     *)
(* keeps them, and declaratively.  TLC enumerates all sequences of up to   *)
(* OrdLen items, checks that the two agree (each reference gets the        *)
(* address of the definition, wherever it is; a program is rejected        *)
(* exactly when a definition is missing or repeated) and prints each one;  *)
(* the harness compiles and runs it, and CImage judges the result.         *)
(*   P prototype of f   F definition of f   U a function that uses f and v *)
(*   X extern v         V int v;            I int v = 1;                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

OrdLen == atoi(IOEnv.ORD_LEN)
Kinds == {"P", "F", "U", "X", "V", "I"}
VARIABLES seq, fdef, vdef, fpend, vpend, fknown, vknown, refs, err, done
vars == <<seq, fdef, vdef, fpend, vpend, fknown, vknown, refs, err, done>>

Init == seq = <<>> /\ fdef = 0 /\ vdef = 0 /\ fpend = {} /\ vpend = {} /\ fknown = FALSE /\ vknown = FALSE /\ refs = {} /\ err = FALSE /\ done = FALSE

\* refs: <<item that refers, name, item that defines>>
Resolve(p, n, d) == {<<j, n, d>> : j \in p}
Step(k) ==
  LET i == Len(seq) + 1
  IN /\ seq' = Append(seq, k) /\ done' = FALSE
     /\ CASE k = "P" -> fknown' = TRUE /\ UNCHANGED <<fdef, vdef, fpend, vpend, vknown, refs, err>>
          [] k = "F" -> /\ fknown' = TRUE /\ err' = (err \/ fdef # 0) /\ fdef' = (IF fdef = 0 THEN i ELSE fdef) /\ fpend' = {}
                        /\ refs' = refs \cup Resolve(fpend, "f", i) /\ UNCHANGED <<vdef, vpend, vknown>>
          [] k = "U" -> /\ fknown' = TRUE
                        /\ IF fdef # 0 THEN refs' = refs \cup {<<i, "f", fdef>>} \cup (IF vdef # 0 THEN {<<i, "v", vdef>>} ELSE {}) /\ fpend' = fpend
                           ELSE fpend' = fpend \cup {i} /\ refs' = refs \cup (IF vdef # 0 THEN {<<i, "v", vdef>>} ELSE {})
                        /\ vpend' = (IF vknown /\ vdef = 0 THEN vpend \cup {i} ELSE vpend)
                        /\ UNCHANGED <<fdef, vdef, vknown, err>>
          [] k \in {"X", "V"} -> vknown' = TRUE /\ UNCHANGED <<fdef, vdef, fpend, vpend, fknown, refs, err>>
          [] k = "I" -> /\ vknown' = TRUE /\ err' = (err \/ vdef # 0) /\ vdef' = (IF vdef = 0 THEN i ELSE vdef) /\ vpend' = {}
                        /\ refs' = refs \cup Resolve(vpend, "v", i) /\ UNCHANGED <<fdef, fpend, fknown>>

\* the end of the file: objects without a definition get one; functions don't
EndF == IF fknown /\ fdef = 0 THEN TRUE ELSE err
Finish == refs \cup Resolve(vpend, "v", Len(seq) + 1)

Defs(k) == {j \in 1..Len(seq) : seq[j] = k}
Known(j) == \E l \in 1..(j - 1) : seq[l] \in {"X", "V", "I"}
DeclErr == Cardinality(Defs("F")) > 1 \/ Cardinality(Defs("I")) > 1 \/ (Defs("F") = {} /\ Defs("P") \cup Defs("U") # {})
DeclRefs == {<<j, "f", CHOOSE d \in Defs("F") : TRUE>> : j \in Defs("U")}
            \cup {<<j, "v", IF Defs("I") = {} THEN Len(seq) + 1 ELSE CHOOSE d \in Defs("I") : TRUE>> : j \in {j \in Defs("U") : Known(j)}}
Agree == /\ EndF = DeclErr
         /\ ~DeclErr => Finish = DeclRefs

Emit == ~done /\ seq # <<>> /\ done' = TRUE /\ PrintT(<<"TRACE", seq, DeclErr>>) /\ UNCHANGED <<seq, fdef, vdef, fpend, vpend, fknown, vknown, refs, err>>
Next == Emit \/ (~done /\ Len(seq) < OrdLen /\ \E k \in Kinds : Step(k))
Spec == Init /\ [][Next]_vars
=============================================================================
