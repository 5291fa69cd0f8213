------------------------------ MODULE SelfBoot ------------------------------
(***************************************************************************)
(* Bootstrapping.  A system owns at most one COM file of each tool; it can *)
(* (re)build any tool with the native compiler or with the compiler it     *)
(* owns, on the native simulator or on the one it owns (run by the native  *)
(* one), preprocessing with the native scpp or its own where the source    *)
(* needs it.  What a build yields is looked up in a table recorded from    *)
(* the real tools: contents are numbers, 0 is "not there".                 *)
(*                                                                         *)
(* TLC explores every history of builds from the empty system to closure.  *)
(* Fixpoint: there is one content per tool, whatever the history; that is, *)
(* each tool reproduces itself and all others, in any number of            *)
(* generations, although only finitely many builds were recorded.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Table == ndJsonDeserialize(IOEnv.BOOT_TABLE)
Tools == {"scc", "scpp", "sas", "sim86"}
VARIABLES own, last
vars == <<own, last>>

\* a native instance is -1; a hosted one is the content of its COM file
CC == {-1, own["scc"]} \ {0}
PP(t) == IF t = "sim86" THEN {-1, own["scpp"]} \ {0} ELSE {-1}
SIM(c, p) == IF c = -1 /\ p = -1 THEN {-1} ELSE {-1, own["sim86"]} \ {0}
Entry(t, c, p, s) == {k \in 1..Len(Table) : LET r == Table[k] IN r.tool = t /\ r.cc = c /\ r.pp = p /\ r.sim = s}
Known(t, c, p, s) == Entry(t, c, p, s) # {}
Result(t, c, p, s) == Table[CHOOSE k \in Entry(t, c, p, s) : TRUE].result

Init == own = [t \in Tools |-> 0] /\ last = <<>>
Build(t, c, p, s) ==
  IF Known(t, c, p, s)
  THEN own' = [own EXCEPT ![t] = Result(t, c, p, s)] /\ last' = <<t, c, p, s, Result(t, c, p, s)>>
  ELSE own' = own /\ last' = <<t, c, p, s, -9>> /\ PrintT(<<"@@", "missing", t, c, p, s>>)
Next == \E t \in Tools : \E c \in CC, p \in PP(t) : \E s \in SIM(c, p) : Build(t, c, p, s)
Spec == Init /\ [][Next]_vars

Normal(t) == Result(t, -1, -1, -1)
Fixpoint == \A t \in Tools : own[t] \in {0, Normal(t)}
Report == Fixpoint \/ PrintT(<<"VERDICT", last[1], ToString(last)>>)
=============================================================================
