------------------------------ MODULE CppCond ------------------------------
(***************************************************************************)
(* Conditional groups, twice: as the stack machine a preprocessor runs     *)
(* (variable st) and as C states it (Live, declaratively, from the whole   *)
(* text).  TLC enumerates every sequence of up to MaxLen lines, checks     *)
(* that the two agree and prints each one; the harness writes it as a      *)
(* source file, runs the real preprocessor on it and compares.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

MaxLen == atoi(IOEnv.COND_LEN)
Kinds == {"0", "1", "e", "E", "l", "n", "t"}   \* if 0, if 1, elif 0, elif 1, else, endif, text

VARIABLES seq, st, live, err
vars == <<seq, st, live, err>>

IsIf(k) == k \in {"0", "1"}
IsElif(k) == k \in {"e", "E"}
True(k) == k \in {"1", "E"}

--------------------------------------------------------------------------
(* What C says *)
Depth(s, i) == \* number of groups open after line i
  LET RECURSIVE d(_)
      d(j) == IF j = 0 THEN 0 ELSE d(j - 1) + (IF IsIf(s[j]) THEN 1 ELSE IF s[j] = "n" THEN -1 ELSE 0)
  IN d(i)
\* b starts a branch that line i is in: nothing between closes it or starts the next branch of the same group
Encloses(s, b, i) ==
  /\ b < i /\ (IsIf(s[b]) \/ IsElif(s[b]) \/ s[b] = "l")
  /\ \A j \in (b + 1)..(i - 1) : Depth(s, j) >= Depth(s, b)
  /\ ~ \E j \in (b + 1)..(i - 1) : (IsElif(s[j]) \/ s[j] = "l") /\ Depth(s, j) = Depth(s, b)
\* earlier branches of the same group
Earlier(s, c, b) ==
  /\ IsIf(s[c]) \/ IsElif(s[c])
  /\ ~IsIf(s[b])
  /\ Depth(s, c) = Depth(s, b)
  /\ \A j \in (c + 1)..(b - 1) : Depth(s, j) >= Depth(s, b)
  /\ ~ \E j \in (c + 1)..b : IsIf(s[j]) /\ Depth(s, j) = Depth(s, b)
Before(s, b) == {c \in 1..(b - 1) : Earlier(s, c, b)}
Taken(s, b) == (s[b] = "l" \/ True(s[b])) /\ \A c \in Before(s, b) : ~True(s[c])
Live(s, i) == \A b \in 1..(i - 1) : Encloses(s, b, i) => Taken(s, b)

Open(s, k) == \E b \in 1..Len(s) : Encloses(s, b, Len(s) + 1)
AfterElse(s) == \* is the innermost open branch an #else?
  \E b \in 1..Len(s) : Encloses(s, b, Len(s) + 1) /\ s[b] = "l" /\ (\A c \in 1..Len(s) : Encloses(s, c, Len(s) + 1) => Depth(s, c) <= Depth(s, b))
Bad(s, k) == (k \in {"e", "E", "l", "n"} /\ ~Open(s, k)) \/ (k \in {"e", "E", "l"} /\ AfterElse(s))

--------------------------------------------------------------------------
(* What a preprocessor does *)
Active == \A i \in 1..Len(st) : st[i][1] = "live"
Top == st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
Step(k) ==
  CASE IsIf(k) -> st' = Append(st, <<IF ~Active THEN "done" ELSE IF True(k) THEN "live" ELSE "wait", FALSE>>) /\ err' = FALSE
    [] k = "n" -> IF st = <<>> THEN st' = st /\ err' = TRUE ELSE st' = Pop /\ err' = FALSE
    [] k = "t" -> st' = st /\ err' = FALSE
    [] OTHER ->
       IF st = <<>> \/ Top[2] THEN st' = st /\ err' = TRUE
       ELSE /\ err' = FALSE
            /\ st' = Append(Pop, <<IF Top[1] # "wait" THEN "done" ELSE IF k = "l" \/ True(k) THEN "live" ELSE "wait", k = "l">>)

Init == seq = <<>> /\ st = <<>> /\ live = <<>> /\ err = FALSE
Next ==
  /\ ~err /\ Len(seq) < MaxLen
  /\ \E k \in Kinds :
       /\ Step(k)
       /\ seq' = Append(seq, k)
       /\ live' = IF k = "t" /\ Active THEN Append(live, Len(seq) + 1) ELSE live
       /\ PrintT(<<"TRACE", seq', live', IF err' THEN Len(seq') ELSE IF st' # <<>> THEN -1 ELSE 0>>)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Agree == \A i \in 1..Len(seq) : seq[i] = "t" /\ ~err => (Live(seq, i) <=> \E j \in 1..Len(live) : live[j] = i)
ErrAgree == seq # <<>> => (err <=> Bad(SubSeq(seq, 1, Len(seq) - 1), seq[Len(seq)]))
DepthAgree == ~err => Len(st) = Depth(seq, Len(seq))
=============================================================================
