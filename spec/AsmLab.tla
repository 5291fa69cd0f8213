------------------------------- MODULE AsmLab -------------------------------
(***************************************************************************)
(* Names in assembly source, twice: as the one-pass table with pending     *)
(* fixups an assembler keeps, and declaratively, as resolution of each     *)
(* reference from the whole text.  TLC enumerates every sequence of up to  *)
(* MaxLen statements, checks that the two agree and prints each one; the   *)
(* harness writes it as source, runs the real assembler on it and compares *)
(* the value of every reference, or the rejection and its line.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

MaxLen == atoi(IOEnv.LAB_LEN)
\* define a global label (G, H) or a local one (a); define G, a as constants (=G, =a); refer to them (.G .H .a)
Kinds == {"G", "H", "a", "=G", "=a", ".G", ".H", ".a"}
Name(k) == CASE k \in {"G", "=G", ".G"} -> "G" [] k \in {"H", ".H"} -> "H" [] OTHER -> "a"
IsDef(k) == k \in {"G", "H", "a", "=G", "=a"}
IsRef(k) == ~IsDef(k)
IsGlobal(k) == k \in {"G", "H"}              \* starts a scope for local names
Local(n) == n = "a"

VARIABLES seq, tab, pend, val, err, done
vars == <<seq, tab, pend, val, err, done>>

--------------------------------------------------------------------------
(* What the text means *)
Scope(s, i) == Cardinality({j \in 1..i : IsGlobal(s[j])})
Key(s, i) == <<Name(s[i]), IF Local(Name(s[i])) THEN Scope(s, i) ELSE 0>>
Defs(s, i) == {j \in 1..Len(s) : IsDef(s[j]) /\ Key(s, j) = Key(s, i)}
Dup(s) == {i \in 1..Len(s) : IsDef(s[i]) /\ \E j \in Defs(s, i) : j < i}
Undef(s) == {i \in 1..Len(s) : IsRef(s[i]) /\ Defs(s, i) = {}}
Valid(s) == Dup(s) = {} /\ Undef(s) = {}
Value(s, i) == CHOOSE j \in Defs(s, i) : TRUE

--------------------------------------------------------------------------
(* What a one-pass assembler does *)
None == 0
Names == {"G", "H", "a"}
Init == /\ seq = <<>> /\ done = FALSE
        /\ tab = [n \in Names |-> None]       \* statement that defines the name
        /\ pend = [n \in Names |-> {}]        \* statements whose reference waits for it
        /\ val = <<>>                         \* value of the reference in each statement
        /\ err = {}                           \* lines the assembler may complain about

Step(k) ==
  LET i == Len(seq) + 1
      n == Name(k)
      lost == IF IsGlobal(k) /\ tab[n] = None THEN pend["a"] ELSE {}
  IN /\ seq' = Append(seq, k)
     /\ done' = FALSE
     /\ IF IsRef(k)
        THEN /\ val' = Append(val, tab[n])
             /\ pend' = IF tab[n] = None THEN [pend EXCEPT ![n] = @ \cup {i}] ELSE pend
             /\ UNCHANGED <<tab, err>>
        ELSE IF tab[n] # None THEN err' = {i} /\ val' = Append(val, None) /\ UNCHANGED <<tab, pend>>
        ELSE /\ err' = lost
             /\ val' = Append([j \in 1..Len(val) |-> IF j \in pend[n] THEN i ELSE val[j]], None)
             /\ tab' = IF IsGlobal(k) THEN [tab EXCEPT ![n] = i, !["a"] = None] ELSE [tab EXCEPT ![n] = i]
             /\ pend' = IF IsGlobal(k) THEN [pend EXCEPT ![n] = {}, !["a"] = {}] ELSE [pend EXCEPT ![n] = {}]

\* the end of the source
Left == UNION {pend[n] : n \in Names}
End ==
  /\ ~done /\ done' = TRUE
  /\ err' = IF err # {} THEN err ELSE Left
  /\ UNCHANGED <<seq, tab, pend, val>>
  /\ PrintT(<<"TRACE", seq, val, err'>>)

Next == \/ ~done /\ seq # <<>> /\ End
        \/ ~done /\ err = {} /\ Len(seq) < MaxLen /\ \E k \in Kinds : Step(k)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Agree == done => /\ err = {} <=> Valid(seq)
                 /\ err = {} => \A i \in 1..Len(seq) : IsRef(seq[i]) => val[i] = Value(seq, i)
                 /\ err # {} => err \subseteq (Dup(seq) \cup Undef(seq))
\* a local name never refers into another scope
Scoped == done /\ err = {} => \A i \in 1..Len(seq) : seq[i] = ".a" => Scope(seq, val[i]) = Scope(seq, i)
=============================================================================
