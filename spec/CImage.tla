------------------------------- MODULE CImage -------------------------------
(***************************************************************************)
(* What a program's global definitions mean for the image, the map file    *)
(* and every address the program sees, and the verdict on what the real    *)
(* compiler made of it: the map as written, the bytes of the COM file and  *)
(* the words the program wrote when it ran.                                *)
(*                                                                         *)
(* A program is a sequence of items in source order: functions (with the   *)
(* actions of their bodies), initialized and uninitialized objects, and    *)
(* declarations.  The order and number of items is arbitrary; the meaning  *)
(* (Meaning, Layout) is stated without reference to the order.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Functions, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.IMG_CASES)
VARIABLES pid, done
vars == <<pid, done>>

--------------------------------------------------------------------------
(* Items: [k, n, t, b, body]; k: fn proto init bss decl *)
Base(x) == IF x = "char" THEN 1 ELSE 2
\* a type: <<base, dimensions, members (of a structure)>>
SizeT(t) == LET one == IF t.base = "struct" THEN FoldLeft(LAMBDA a, m : a + (IF m.n = 0 THEN Base(m.base) ELSE Base(m.base) * m.n), 0, t.mem) ELSE Base(t.base)
            IN FoldLeft(LAMBDA a, d : a * d, one, t.dims)

Sel(its, ks) == SelectSeq(its, LAMBDA x : x.k \in ks)
NamesOf(s) == {s[j].n : j \in 1..Len(s)}
Functions_(its) == NamesOf(Sel(its, {"fn"}))
Calls(its) == UNION {{x.n : x \in {a \in Range(its[j].body) : a.a \in {"call", "fnaddr"}}} : j \in {j \in 1..Len(its) : its[j].k = "fn"}}
AllNames(its) == NamesOf(its) \cup Calls(its)
Count(its, k, n) == Cardinality({j \in 1..Len(its) : its[j].k = k /\ its[j].n = n})

\* a definition is unique; what is called or declared as a function is defined somewhere
Valid(its) == /\ \A n \in AllNames(its) : Count(its, "fn", n) <= 1 /\ Count(its, "init", n) <= 1
              /\ \A n \in Calls(its) \cup NamesOf(Sel(its, {"proto"})) : Count(its, "fn", n) = 1

Inits(its) == {j \in 1..Len(its) : its[j].k = "init"}
\* objects without an initializer anywhere live after the image
BssNames(its) == NamesOf(Sel(its, {"bss", "decl"})) \ NamesOf(Sel(its, {"init"}))
TypeOf(its, n) == its[CHOOSE j \in 1..Len(its) : its[j].n = n /\ its[j].k \in {"bss", "decl"}].t
\* static locals in code that is reached: <<function, name>>
Statics(its) == UNION {{<<its[j].n, x.n>> : x \in {a \in Range(its[j].body) : a.a = "static"}} : j \in {j \in 1..Len(its) : its[j].k = "fn"}}
StaticT(its, s) == LET f == its[CHOOSE j \in 1..Len(its) : its[j].k = "fn" /\ its[j].n = s[1]]
                   IN (f.body[CHOOSE j \in 1..Len(f.body) : f.body[j].a = "static" /\ f.body[j].n = s[2]]).t

--------------------------------------------------------------------------
(* The words a run writes, as symbols: <<"v", n>> a number, <<"a", name, offset>> an address, <<"s", function, name>> a static *)
RECURSIVE Run(_, _)
Run(its, f) ==
  LET j == CHOOSE j \in 1..Len(its) : its[j].k = "fn" /\ its[j].n = f
      b == its[j].body
  IN FoldLeft(LAMBDA acc, x :
       acc \o (CASE x.a = "obs" -> <<<<"v", x.v, "">>>>
                 [] x.a \in {"addr", "fnaddr"} -> <<<<"a", x.n, x.v>>>>
                 [] x.a = "static" -> <<<<"s", f, x.n>>>>
                 [] x.a = "call" -> Run(its, x.n)
                 [] OTHER -> <<>>), <<>>, b)

--------------------------------------------------------------------------
(* The verdict *)
Disjoint(S) == \A x, y \in S : x # y => (x.lo + x.sz <= y.lo \/ y.lo + y.sz <= x.lo)
MaxEnd(S, z) == IF S = {} THEN z ELSE CHOOSE e \in {x.lo + x.sz : x \in S} : \A x \in S : x.lo + x.sz <= e

Judge(c) ==
  LET its == c.items
      names == AllNames(its)
      special == {"_SBSS", "_EBSS"}
      occ(n) == {j \in 1..Len(c.map) : c.map[j].n = n}
      ok1 == \A n \in names \cup special : Cardinality(occ(n)) = 1
      at == [n \in names \cup special |-> c.map[CHOOSE j \in occ(n) : TRUE].at]
      statAt == [j \in occ("@static") |-> c.map[j].at]
      sbss == at["_SBSS"]
      ebss == at["_EBSS"]
      words == Run(its, "_start")
      \* where the run says each static is (the first time)
      spos(s) == LET ix == {j \in 1..Len(words) : words[j][1] = "s" /\ words[j][2] = s[1] /\ words[j][3] = s[2]} IN IF ix = {} THEN -1 ELSE c.words[CHOOSE j \in ix : \A l \in ix : j <= l]
      seen == {s \in Statics(its) : spos(s) # -1}
      bss == {[n |-> n, lo |-> at[n], sz |-> SizeT(TypeOf(its, n))] : n \in BssNames(its)}
      sts == {[n |-> s[1] \o "." \o s[2], lo |-> spos(s), sz |-> SizeT(StaticT(its, s))] : s \in seen}
      ini == {[n |-> its[j].n, lo |-> at[its[j].n], sz |-> Len(its[j].b)] : j \in Inits(its)}
      fns == {at[n] : n \in Functions_(its)}
      want(j) == CASE words[j][1] = "v" -> words[j][2] [] words[j][1] = "a" -> (at[words[j][2]] + words[j][3]) % 65536 [] OTHER -> spos(<<words[j][2], words[j][3]>>)
      badw == {j \in 1..Len(words) : j > Len(c.words) \/ c.words[j] # want(j)}
  IN IF ~Valid(its) THEN (IF c.rc = 1 THEN <<"ok", "rejected">> ELSE <<"mismatch", "an invalid program was compiled">>)
     ELSE IF c.rc # 0 THEN <<"mismatch", "a valid program was rejected">>
     ELSE IF ~ok1 THEN <<"mismatch", "not exactly once in the map", CHOOSE n \in names \cup special : Cardinality(occ(n)) # 1>>
     ELSE IF \E j \in 1..Len(c.map) : c.map[j].n \notin names \cup special \cup {"@static"} THEN <<"mismatch", "a name in the map that is not in the program">>
     ELSE IF Cardinality(occ("@static")) # Cardinality(Statics(its)) THEN <<"mismatch", "number of static locals in the map", Cardinality(occ("@static")), Cardinality(Statics(its))>>
     ELSE IF sbss # 256 + Len(c.img) THEN <<"mismatch", "_SBSS is not the end of the file", sbss, 256 + Len(c.img)>>
     ELSE IF Len(c.words) # Len(words) THEN <<"mismatch", "words written", Len(c.words), Len(words)>>
     ELSE IF badw # {} THEN LET j == CHOOSE j \in badw : \A l \in badw : j <= l IN <<"mismatch", "reference", words[j][2], ToString(words[j][3]), c.words[j], want(j)>>
     ELSE IF ~(\A x \in ini : x.lo >= 256 /\ x.lo + x.sz <= sbss) THEN <<"mismatch", "initialized object outside the file">>
     ELSE IF ~(\A j \in Inits(its) : SubSeq(c.img, at[its[j].n] - 255, at[its[j].n] - 256 + Len(its[j].b)) = its[j].b) THEN <<"mismatch", "initial contents">>
     ELSE IF ~Disjoint(ini) THEN <<"mismatch", "initialized objects overlap">>
     ELSE IF Cardinality(fns) # Cardinality(Functions_(its)) \/ ~(\A a \in fns : a >= 256 /\ a < sbss /\ \A x \in ini : a < x.lo \/ a >= x.lo + x.sz) THEN <<"mismatch", "function address">>
     ELSE IF ~Disjoint(bss \cup sts) THEN <<"mismatch", "objects without initializer overlap">>
     ELSE IF ~(\A x \in bss \cup sts : x.lo >= sbss /\ x.lo + x.sz <= ebss) THEN <<"mismatch", "object outside _SBSS to _EBSS">>
     ELSE IF seen = Statics(its) /\ ebss # MaxEnd(bss \cup sts, sbss) THEN <<"mismatch", "_EBSS is not the end of the last object">>
     ELSE IF {spos(s) : s \in seen} \subseteq Range(statAt) THEN <<"ok", Cardinality(bss), Cardinality(sts), Cardinality(ini), Cardinality(fns), Len(words)>>
     ELSE <<"mismatch", "static local not in the map">>

Init == pid \in 1..Len(Cases) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED pid /\ PrintT(<<"VERDICT", pid, Judge(Cases[pid])>>)
Spec == Init /\ [][Next]_vars
=============================================================================
