-------------------------------- MODULE Lib --------------------------------
(***************************************************************************)
(* The run-time library lib.h as the C functions of the same name.  State: *)
(* an object of 256 bytes the program works on, the console, the files and *)
(* the open descriptors.  One step per recorded call; a step is allowed    *)
(* only if the recorded result and every byte of the object are what the   *)
(* C function leaves (int has 16 bits, the console turns LF into CR LF).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, Functions

Cases == ndJsonDeserialize(IOEnv.LIB_CASES)
VARIABLES pid, i, mem, con, files, open, res
vars == <<pid, i, mem, con, files, open, res>>
P == Cases[pid]
Size == 256

S16(v) == LET w == v % 65536 IN IF w < 32768 THEN w ELSE w - 65536
Min(a, b) == IF a < b THEN a ELSE b
Cut(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Rep(c, n) == [k \in 1..(IF n > 0 THEN n ELSE 0) |-> c]

\* bytes of the object from offset o (0-based) to its end, and the C string there
From(o, n) == [k \in 1..n |-> mem[o + k]]
Length(o) == CHOOSE n \in 0..(Size - o - 1) : mem[o + n + 1] = 0 /\ \A k \in 1..n : mem[o + k] # 0
\* an argument: given bytes ("b"), or a position in the object ("m")
Str(a) == IF a.k = "b" THEN a.b ELSE From(a.o, Length(a.o))
Bytes(a, n) == IF a.k = "b" THEN Cut(a.b, n) ELSE From(a.o, n)
Store(o, bs) == [k \in 1..Size |-> IF k > o /\ k <= o + Len(bs) THEN bs[k - o] ELSE mem[k]]

--------------------------------------------------------------------------
(* Conversion specifications *)
RECURSIVE Digits(_, _, _)
Digits(n, base, a) ==   \* n >= 0; a: code of the digit ten
  LET d == n % base
      c == IF d < 10 THEN 48 + d ELSE a + d - 10
  IN IF n < base THEN <<c>> ELSE Digits(n \div base, base, a) \o <<c>>
Pad(s, w) == Rep(32, w - Len(s)) \o s
Number(sign, ds, w, zero) == IF zero THEN sign \o Rep(48, w - Len(sign) - Len(ds)) \o ds ELSE Pad(sign \o ds, w)

\* f: the format, p: position in it, as: the arguments left
RECURSIVE Format(_, _, _)
Format(f, p, as) ==
  IF p > Len(f) THEN <<>>
  ELSE IF f[p] # 37 THEN <<f[p]>> \o Format(f, p + 1, as)
  ELSE LET plus == f[p + 1] = 43
           p1 == IF plus THEN p + 2 ELSE p + 1
           zero == f[p1] = 48
           RECURSIVE Width(_, _)
           Width(q, w) == IF f[q] >= 48 /\ f[q] <= 57 THEN Width(q + 1, w * 10 + f[q] - 48) ELSE <<q, w>>
           wd == Width(p1, 0)
           q == wd[1]
           w == wd[2]
           c == f[q]
           v == as[1].v
           r == Tail(as)
       IN CASE c = 37 -> <<37>> \o Format(f, q + 1, as)
            [] c = 115 -> Pad(Str(as[1]), w) \o Format(f, q + 1, r)
            [] c = 99 -> Pad(<<v % 256>>, w) \o Format(f, q + 1, r)
            [] c = 100 -> LET s == S16(v) IN
                          Number(IF s < 0 THEN <<45>> ELSE IF plus THEN <<43>> ELSE <<>>, Digits(IF s < 0 THEN -s ELSE s, 10, 0), w, zero) \o Format(f, q + 1, r)
            [] c = 120 -> Number(<<>>, Digits(v % 65536, 16, 97), w, zero) \o Format(f, q + 1, r)
            [] c = 88 -> Number(<<>>, Digits(v % 65536, 16, 65), w, zero) \o Format(f, q + 1, r)

--------------------------------------------------------------------------
(* The console and the command line *)
RECURSIVE Crlf(_, _)
Crlf(bs, k) == IF k > Len(bs) THEN <<>> ELSE (IF bs[k] = 10 THEN <<13, 10>> ELSE <<bs[k]>>) \o Crlf(bs, k + 1)

Blank(c) == c \in 1..32
RECURSIVE Words(_, _, _, _)
Words(t, k, w, ws) ==
  IF k > Len(t) THEN IF w = <<>> THEN ws ELSE Append(ws, w)
  ELSE IF Blank(t[k]) THEN Words(t, k + 1, <<>>, IF w = <<>> THEN ws ELSE Append(ws, w))
  ELSE Words(t, k + 1, Append(w, t[k]), ws)
Argv == Words(P.tail, 1, <<>>, <<>>)
RECURSIVE Flat(_)
Flat(ws) == IF ws = <<>> THEN <<>> ELSE ws[1] \o <<0>> \o Flat(Tail(ws))

--------------------------------------------------------------------------
Sign(v) == LET s == S16(v) IN IF s < 0 THEN -1 ELSE IF s > 0 THEN 1 ELSE 0
Less(a, b) == \* unsigned comparison of two strings
  \E k \in 1..(Min(Len(a), Len(b)) + 1) :
     /\ \A j \in 1..(k - 1) : a[j] = b[j]
     /\ LET x == IF k > Len(a) THEN 0 ELSE a[k]
            y == IF k > Len(b) THEN 0 ELSE b[k]
        IN x < y
Compare(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1

File(n) == {k \in 1..Len(files) : files[k].n = n}
Content(n) == files[CHOOSE k \in File(n) : TRUE].b
Put(n, b) == IF File(n) = {} THEN Append(files, [n |-> n, b |-> b])
             ELSE [k \in 1..Len(files) |-> IF files[k].n = n THEN [n |-> n, b |-> b] ELSE files[k]]
Open(d) == open[d].h >= 0
Closed == [h |-> -1, n |-> "", pos |-> 0, w |-> FALSE]

Verdict(v, w) == PrintT(<<"VERDICT", pid, v, w>>) /\ res' = v
S == P.steps[i]
FirstDiff(m) == CHOOSE k \in 1..Size : S.mem[k] # m[k] /\ \A j \in 1..(k - 1) : S.mem[j] = m[j]
\* what every step must leave
Step(m, okret, ret) ==
  IF S.mem # m THEN /\ UNCHANGED <<pid, i, mem>>
                    /\ Verdict("mismatch", <<i, S.f, "byte", FirstDiff(m) - 1, "should be", m[FirstDiff(m)], "is", S.mem[FirstDiff(m)]>>)
  ELSE IF ~okret THEN /\ UNCHANGED <<pid, i, mem>>
                      /\ Verdict("mismatch", <<i, S.f, "result should be", ret, "is", S16(S.ret)>>)
  ELSE /\ mem' = m /\ i' = i + 1 /\ UNCHANGED <<pid, res>>
Same == UNCHANGED <<con, files, open>>
Ret(v) == S16(S.ret) = v

Call ==
  CASE S.f = "memcpy" -> Step(Store(S.d, Bytes(S.s, S.n)), TRUE, 0) /\ Same
    [] S.f = "memset" -> Step(Store(S.d, Rep(S.v % 256, S.n)), TRUE, 0) /\ Same
    [] S.f = "strcpy" -> Step(Store(S.d, Str(S.s) \o <<0>>), TRUE, 0) /\ Same
    [] S.f = "strlen" -> Step(mem, Ret(Len(Str(S.s))), Len(Str(S.s))) /\ Same
    [] S.f = "strcmp" -> LET c == Compare(Str(S.s), Str(S.t)) IN Step(mem, Sign(S.ret) = c, c) /\ Same
    [] S.f = "sprintf" -> Step(Store(S.d, Format(Str(S.s), 1, S.as) \o <<0>>), TRUE, 0) /\ Same
    [] S.f = "printf" -> Step(mem, TRUE, 0) /\ con' = con \o Crlf(Format(Str(S.s), 1, S.as), 1) /\ UNCHANGED <<files, open>>
    [] S.f = "puts" -> Step(mem, TRUE, 0) /\ con' = con \o Crlf(Str(S.s) \o <<10>>, 1) /\ UNCHANGED <<files, open>>
    [] S.f = "putchar" -> Step(mem, TRUE, 0) /\ con' = con \o Crlf(<<S.v % 256>>, 1) /\ UNCHANGED <<files, open>>
    [] S.f = "args" -> Step(Store(0, Flat(Argv)), Ret(Len(Argv) + 1), Len(Argv) + 1) /\ Same
    [] S.f = "zero" -> Step(mem, Ret(0), 0) /\ Same
    [] S.f = "farpeek" -> Step(mem, Ret(mem[S.d + 1]), mem[S.d + 1]) /\ Same
    [] S.f = "farpoke" -> Step(Store(S.d, <<S.v % 256>>), TRUE, 0) /\ Same
    [] S.f = "creat" ->
         /\ Step(mem, S16(S.ret) >= 0 /\ \A d \in DOMAIN open : open[d].h # S16(S.ret), "a new descriptor")
         /\ files' = Put(S.name, <<>>)
         /\ open' = [open EXCEPT ![S.n + 1] = [h |-> S16(S.ret), n |-> S.name, pos |-> 0, w |-> TRUE]]
         /\ UNCHANGED con
    [] S.f = "open" ->
         IF File(S.name) = {} THEN Step(mem, Ret(-1), -1) /\ Same
         ELSE /\ Step(mem, S16(S.ret) >= 0 /\ \A d \in DOMAIN open : open[d].h # S16(S.ret), "a new descriptor")
              /\ open' = [open EXCEPT ![S.n + 1] = [h |-> S16(S.ret), n |-> S.name, pos |-> 0, w |-> FALSE]]
              /\ UNCHANGED <<con, files>>
    [] S.f = "close" -> Step(mem, TRUE, 0) /\ open' = [open EXCEPT ![S.n + 1] = Closed] /\ UNCHANGED <<con, files>>
    [] S.f = "read" ->
         IF ~Open(S.n + 1) THEN Step(mem, Ret(-1), -1) /\ Same
         ELSE LET o == open[S.n + 1]
                  c == Content(o.n)
                  got == SubSeq(c, o.pos + 1, Min(o.pos + S.v, Len(c)))
              IN /\ Step(Store(S.d, got), Ret(Len(got)), Len(got))
                 /\ open' = [open EXCEPT ![S.n + 1].pos = @ + Len(got)]
                 /\ UNCHANGED <<con, files>>
    [] S.f = "write" ->
         IF ~Open(S.n + 1) THEN Step(mem, Ret(-1), -1) /\ Same
         ELSE LET bs == Bytes(S.s, S.v) IN
              /\ Step(mem, Ret(S.v), S.v)
              /\ files' = Put(open[S.n + 1].n, Content(open[S.n + 1].n) \o bs)
              /\ UNCHANGED <<con, open>>
    [] S.f = "out" -> Step(mem, Ret(S.v), S.v) /\ con' = con \o Bytes(S.s, S.v) /\ UNCHANGED <<files, open>>

\* how the program ends: code is the value returned from main or passed to exit; assertion failures exit with 1
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
AssertText == <<65, 115, 115, 101, 114, 116, 105, 111, 110, 32, 102, 97, 105, 108, 101, 100>>
Diff(a, b) == IF \E k \in 1..Min(Len(a), Len(b)) : a[k] # b[k] THEN CHOOSE k \in 1..Min(Len(a), Len(b)) : a[k] # b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
              ELSE Min(Len(a), Len(b)) + 1
At(s, k) == IF k <= Len(s) THEN s[k] ELSE -1
Finish ==
  /\ UNCHANGED <<pid, i, mem, con, files, open>>
  /\ IF Len(P.steps) # P.calls THEN Verdict("mismatch", <<"the program made", Len(P.steps), "of", P.calls, "calls">>)
     ELSE IF P.exit # (IF P.how = "assert" THEN 1 ELSE P.code % 256) THEN Verdict("mismatch", <<"exit code", P.exit>>)
     ELSE IF P.how # "assert" /\ P.con # con THEN Verdict("mismatch", <<"console byte", Diff(con, P.con), "should be", At(con, Diff(con, P.con)), "is", At(P.con, Diff(con, P.con))>>)
     ELSE IF P.how = "assert" /\ ~Starts(P.con, con \o AssertText) THEN Verdict("mismatch", <<"no assertion message">>)
     ELSE IF \E k \in 1..Len(P.files) : File(P.files[k].n) = {} \/ Content(P.files[k].n) # P.files[k].b
          THEN Verdict("mismatch", <<"file", P.files[CHOOSE k \in 1..Len(P.files) : File(P.files[k].n) = {} \/ Content(P.files[k].n) # P.files[k].b].n>>)
     ELSE IF Len(P.files) # Len(files) THEN Verdict("mismatch", <<"number of files", Len(P.files)>>)
     ELSE Verdict("ok", <<i - 1>>)

Init ==
  /\ pid \in 1..Len(Cases)
  /\ i = 1
  /\ mem = [k \in 1..Size |-> ((k - 1) * 5 + 1) % 256]
  /\ con = <<>>
  /\ files = P.before
  /\ open = [d \in 1..4 |-> Closed]
  /\ res = "run"
Next == res = "run" /\ IF i <= Len(P.steps) THEN Call ELSE Finish
Spec == Init /\ [][Next]_vars
View == <<pid, i, res>>
TypeOK == \A k \in 1..Size : mem[k] \in 0..255
\* two descriptors are never open on the same number
Distinct == \A c, d \in DOMAIN open : c # d /\ open[c].h >= 0 => open[c].h # open[d].h
=============================================================================
