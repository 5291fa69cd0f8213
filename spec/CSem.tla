-------------------------------- MODULE CSem --------------------------------
(***************************************************************************)
(* An abstract machine for the C dialect of scc: 16-bit int, packed        *)
(* structs, byte-addressed little-endian store, lexical scopes, statements *)
(* with structured control flow plus goto, calls, varargs and function     *)
(* pointers.                                                               *)
(*                                                                         *)
(* The machine runs a batch of programs (abstract syntax read from JSON,   *)
(* see harness/cgen.py), one behaviour per program: every initial state is *)
(* one program.  Each program carries the trace recorded from the real     *)
(* toolchain (scc + sim86): the values it passed to obs(), in order, and   *)
(* its exit code.  The Obs and Halt actions are only allowed to take the   *)
(* recorded values, so a program reaches verdict "ok" iff the recorded     *)
(* trace is a behaviour of this specification.                             *)
(*                                                                         *)
(* Undefined C behaviour (division by zero, out-of-range shift, reading an *)
(* uninitialized byte, touching unallocated memory) moves the machine to   *)
(* verdict "undef": everything before it has been validated.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Bitwise

Progs == ndJsonDeserialize(IOEnv.CSEM_PROGS)
MaxSteps == atoi(IOEnv.CSEM_MAXSTEPS)

VARIABLES
  pid,    \* which program
  n,      \* steps taken
  md,     \* machine mode: E,L evaluate cur; V value in cur; S run statement cur; N statement done; T loop top; H halted
  cur,    \* current expression, statement or value
  k,      \* continuation: linked list of frames
  env,    \* current scope chain [s |-> bindings, up |-> outer]
  genv,   \* file scope
  mem,    \* byte store: -2 unallocated, -1 uninitialized, 0..255
  brk,    \* next free address of the frame area
  sbrk,   \* next free address of the static area (grows down)
  sts,    \* struct/union layouts
  stat,   \* static locals allocated so far
  oi,     \* number of observations matched
  res     \* verdict

vars == <<pid, n, md, cur, k, env, genv, mem, brk, sbrk, sts, stat, oi, res>>

P == Progs[pid]
Nd(i) == P.nodes[i]      \* syntax tree nodes are referred to by index

-----------------------------------------------------------------------------
(* Arithmetic on 16-bit words *)
W16(x) == x % 65536
S16(x) == LET y == x % 65536 IN IF y >= 32768 THEN y - 65536 ELSE y
S8(x)  == LET y == x % 256 IN IF y >= 128 THEN y - 256 ELSE y
Mul16(a, b) == LET x == W16(a) y == W16(b) IN ((x % 256) * y + (((x \div 256) * y) % 256) * 256) % 65536
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>

TInt == <<"int">>
TUInt == <<"uint">>
TVoid == <<"void">>
Ptr(t) == <<"ptr", t>>
Undef == [t |-> <<"undef">>, v |-> 0]
IsU(x) == x.t[1] = "undef"
IVal(x) == [t |-> TInt, v |-> x]
BoolV(b) == IF b THEN [t |-> TInt, v |-> 1] ELSE [t |-> TInt, v |-> 0]

RECURSIVE Size(_)
Size(t) == CASE t[1] \in {"char", "uchar"} -> 1
             [] t[1] \in {"int", "uint", "ptr"} -> 2
             [] t[1] = "arr" -> t[3] * Size(t[2])
             [] t[1] = "st" -> sts[t[2]].size

(* Conversion of a scalar value to type t; char types as stored values promote to int *)
Conv(t, x) == IF IsU(x) THEN x
              ELSE CASE t[1] = "int" -> [t |-> t, v |-> S16(x.v)]
                     [] t[1] = "uint" -> [t |-> t, v |-> W16(x.v)]
                     [] t[1] = "ptr" -> [t |-> t, v |-> W16(x.v)]
                     [] t[1] = "char" -> [t |-> TInt, v |-> S8(x.v)]
                     [] t[1] = "uchar" -> [t |-> TInt, v |-> x.v % 256]
                     [] t[1] = "void" -> [t |-> t, v |-> 0]
                     [] OTHER -> x

Truth(x) == x.v # 0

Arith(op, a, b) ==   \* a, b int or uint
  LET u == a.t[1] = "uint" \/ b.t[1] = "uint"
      x == IF u THEN W16(a.v) ELSE a.v
      y == IF u THEN W16(b.v) ELSE b.v
      R(v) == IF u THEN [t |-> TUInt, v |-> W16(v)] ELSE [t |-> TInt, v |-> S16(v)]
  IN CASE op = "+" -> R(x + y)
       [] op = "-" -> R(x - y)
       [] op = "*" -> R(Mul16(x, y))
       [] op = "/" -> IF y = 0 \/ (~u /\ x = -32768 /\ y = -1) THEN Undef ELSE R(TDiv(x, y))
       [] op = "%" -> IF y = 0 \/ (~u /\ x = -32768 /\ y = -1) THEN Undef ELSE R(TMod(x, y))
       [] op = "&" -> R(W16(x) & W16(y))
       [] op = "|" -> R(W16(x) | W16(y))
       [] op = "^" -> R(W16(x) ^^ W16(y))
       [] op = "<" -> BoolV(x < y)
       [] op = "<=" -> BoolV(x <= y)
       [] op = ">" -> BoolV(x > y)
       [] op = ">=" -> BoolV(x >= y)
       [] op = "==" -> BoolV(x = y)
       [] op = "!=" -> BoolV(x # y)

Shift(op, a, b) ==   \* the result has the type of the left operand
  IF b.v < 0 \/ b.v > 15 THEN Undef
  ELSE IF op = "<<" THEN
         LET v == Mul16(a.v, Pow2[b.v + 1]) IN
         IF a.t[1] = "uint" THEN [t |-> TUInt, v |-> v] ELSE [t |-> TInt, v |-> S16(v)]
  ELSE IF a.t[1] = "uint" THEN [t |-> TUInt, v |-> W16(a.v) \div Pow2[b.v + 1]]
  ELSE [t |-> TInt, v |-> a.v \div Pow2[b.v + 1]]

Bin(op, a, b) ==
  IF IsU(a) \/ IsU(b) THEN Undef
  ELSE IF op \in {"<<", ">>"} THEN Shift(op, a, b)
  ELSE IF a.t[1] = "ptr" THEN
         IF b.t[1] = "ptr" THEN
           CASE op = "-" -> IVal(TDiv(S16(a.v - b.v), Size(a.t[2])))
             [] op = "<" -> BoolV(a.v < b.v)
             [] op = "<=" -> BoolV(a.v <= b.v)
             [] op = ">" -> BoolV(a.v > b.v)
             [] op = ">=" -> BoolV(a.v >= b.v)
             [] op = "==" -> BoolV(a.v = b.v)
             [] op = "!=" -> BoolV(a.v # b.v)
         ELSE CASE op = "+" -> [t |-> a.t, v |-> W16(a.v + b.v * Size(a.t[2]))]
                [] op = "-" -> [t |-> a.t, v |-> W16(a.v - b.v * Size(a.t[2]))]
                [] op = "==" -> BoolV(a.v = W16(b.v))
                [] op = "!=" -> BoolV(a.v # W16(b.v))
  ELSE IF b.t[1] = "ptr" THEN
         CASE op = "+" -> [t |-> b.t, v |-> W16(b.v + a.v * Size(b.t[2]))]
           [] op = "==" -> BoolV(b.v = W16(a.v))
           [] op = "!=" -> BoolV(b.v # W16(a.v))
  ELSE Arith(op, a, b)

Un(op, a) ==
  IF IsU(a) THEN Undef
  ELSE CASE op = "+" -> a
         [] op = "-" -> IF a.t[1] = "uint" THEN [t |-> TUInt, v |-> W16(-a.v)] ELSE IVal(S16(-a.v))
         [] op = "~" -> IF a.t[1] = "uint" THEN [t |-> TUInt, v |-> 65535 - a.v] ELSE IVal(-1 - a.v)
         [] op = "!" -> BoolV(a.v = 0)

-----------------------------------------------------------------------------
(* Scopes *)
NoScope == [x \in {} |-> 0]
RECURSIVE Lk(_, _)
Lk(nm, e) == IF nm \in DOMAIN e.s THEN e.s[nm]
             ELSE IF e.top THEN genv[nm] ELSE Lk(nm, e.up)

FileScope == [s |-> NoScope, top |-> TRUE, up |-> 0]
RECURSIVE Res(_, _)   \* resolve type names in scope e
Res(t, e) == CASE t[1] = "ptr" -> <<"ptr", Res(t[2], e)>>
               [] t[1] = "arr" -> <<"arr", Res(t[2], e), t[3]>>
               [] t[1] = "tag" -> <<"st", Lk(t[2], e).id>>
               [] t[1] = "td" -> Lk(t[2], e).t
               [] OTHER -> t

(* Store *)
InMem(a) == a \in DOMAIN mem
Load(t, a) ==
  IF t[1] = "arr" THEN [t |-> Ptr(t[2]), v |-> a]
  ELSE IF t[1] = "st" THEN [t |-> t, v |-> a]
  ELSE IF t[1] = "fn" THEN [t |-> Ptr(t), v |-> a]
  ELSE IF t[1] \in {"char", "uchar"} THEN
         IF ~InMem(a) \/ mem[a] < 0 THEN Undef
         ELSE IVal(IF t[1] = "char" THEN S8(mem[a]) ELSE mem[a])
  ELSE IF ~InMem(a) \/ ~InMem(a + 1) THEN Undef
  ELSE IF mem[a] < 0 \/ mem[a + 1] < 0 THEN Undef
  ELSE LET w == mem[a] + 256 * mem[a + 1] IN
       [t |-> t, v |-> IF t[1] = "int" THEN S16(w) ELSE w]

CanStore(t, a) == /\ InMem(a) /\ InMem(a + Size(t) - 1)
                  /\ mem[a] # -2 /\ mem[a + Size(t) - 1] # -2
Put(m, t, a, x) == IF t[1] \in {"char", "uchar"} THEN [m EXCEPT ![a] = x.v % 256]
                   ELSE LET w == W16(x.v) IN [m EXCEPT ![a] = w % 256, ![a + 1] = w \div 256]
CopyMem(m, d, s, sz) == TLCEval([x \in DOMAIN m |-> IF x >= d /\ x < d + sz THEN m[s + x - d] ELSE m[x]])
Fill(m, a, sz, b) == IF sz = 1 THEN [m EXCEPT ![a] = b]
                     ELSE IF sz = 2 THEN [m EXCEPT ![a] = b, ![a + 1] = b]
                     ELSE TLCEval([x \in DOMAIN m |-> IF x >= a /\ x < a + sz THEN b ELSE m[x]])
PutBytes(m, a, bs) == TLCEval([x \in DOMAIN m |-> IF x >= a /\ x < a + Len(bs) THEN bs[x - a + 1] ELSE m[x]])
Gap == 4

FnBase == 32768
-----------------------------------------------------------------------------
(* Types of expressions (before the usual promotions): needed for sizeof   *)
(* and the type of ?:                                                       *)
Promote(t) == CASE t[1] \in {"char", "uchar"} -> TInt
                [] t[1] = "arr" -> Ptr(t[2])
                [] t[1] = "fn" -> Ptr(t)
                [] OTHER -> t
UAC(a, b) == IF a[1] = "uint" \/ b[1] = "uint" THEN TUInt ELSE TInt

RECURSIVE Ty(_)
Ty(ei) == LET e == Nd(ei) IN
  CASE e.k = "num" -> TInt
    [] e.k = "id" -> LET b == Lk(e.n, env) IN
                     (CASE b.k = "con" -> TInt [] b.k = "var" -> b.t [] b.k = "fn" -> <<"fn", b.rt>>)
    [] e.k = "un" -> (CASE e.op = "*" -> (LET t == Promote(Ty(e.e)) IN IF t[2][1] = "fn" THEN t ELSE t[2])
                       [] e.op = "&" -> IF Ty(e.e)[1] = "fn" THEN Promote(Ty(e.e)) ELSE Ptr(Ty(e.e))
                       [] e.op = "!" -> TInt
                       [] OTHER -> Promote(Ty(e.e)))
    [] e.k = "bin" -> LET a == Promote(Ty(e.l)) b == Promote(Ty(e.r)) IN
                      (CASE e.op \in {"<", "<=", ">", ">=", "==", "!="} -> TInt
                        [] e.op \in {"<<", ">>"} -> a
                        [] a[1] = "ptr" -> IF b[1] = "ptr" THEN TInt ELSE a
                        [] b[1] = "ptr" -> b
                        [] OTHER -> UAC(a, b))
    [] e.k \in {"and", "or", "sizet", "sizee"} -> TInt
    [] e.k = "cond" -> LET a == Promote(Ty(e.a)) b == Promote(Ty(e.b)) IN
                       IF a[1] \in {"int", "uint"} /\ b[1] \in {"int", "uint"} THEN UAC(a, b)
                       ELSE IF a[1] = "ptr" THEN a ELSE b
    [] e.k = "comma" -> Promote(Ty(e.r))
    [] e.k = "asg" -> Ty(e.l)
    [] e.k = "inc" -> Ty(e.e)
    [] e.k = "idx" -> Promote(Ty(e.a))[2]
    [] e.k = "mem" -> LET s == sts[Ty(e.e)[2]] IN s.t[e.n]
    [] e.k = "arrow" -> LET s == sts[Promote(Ty(e.e))[2][2]] IN s.t[e.n]
    [] e.k = "cast" -> Res(e.t, env)
    [] e.k = "call" -> LET t == Ty(e.f) IN IF t[1] = "fn" THEN t[2] ELSE t[2][2]
    [] e.k = "vaarg" -> Res(e.t, env)
    [] OTHER -> TInt

-----------------------------------------------------------------------------
(* Big-step value of an expression without side effects *)
Deref(x) == IF IsU(x) THEN x ELSE [t |-> x.t[2], v |-> x.v]
Member(s, nm, a) == [t |-> sts[s].t[nm], v |-> a + sts[s].o[nm]]
Elem(p, i) == IF IsU(p) \/ IsU(i) THEN Undef
              ELSE [t |-> p.t[2], v |-> W16(p.v + i.v * Size(p.t[2]))]
LoadL(l) == IF IsU(l) THEN l ELSE Load(l.t, l.v)
CondConv(ei, x) == IF IsU(x) \/ x.t[1] \notin {"int", "uint"} THEN x
                  ELSE LET t == Ty(ei) IN IF t[1] \in {"int", "uint"} THEN Conv(t, x) ELSE x

RECURSIVE RV(_)
RECURSIVE LV(_)
LV(ei) == LET e == Nd(ei) IN
  CASE e.k = "id" -> LET b == Lk(e.n, env) IN
                     IF b.k = "fn" THEN [t |-> <<"fn", b.rt>>, v |-> FnBase + b.f] ELSE [t |-> b.t, v |-> b.a]
    [] e.k = "un" -> LET x == RV(e.e) IN
                     IF IsU(x) THEN x ELSE IF x.t[2][1] = "fn" THEN [t |-> x.t[2], v |-> x.v] ELSE Deref(x)
    [] e.k = "idx" -> Elem(RV(e.a), RV(e.i))
    [] e.k = "mem" -> LET l == LV(e.e) IN IF IsU(l) THEN l ELSE Member(l.t[2], e.n, l.v)
    [] e.k = "arrow" -> LET p == RV(e.e) IN IF IsU(p) THEN p ELSE Member(p.t[2][2], e.n, p.v)
    [] e.k = "cond" -> LET c == RV(e.c) IN IF IsU(c) THEN c ELSE IF Truth(c) THEN LV(e.a) ELSE LV(e.b)
RV(ei) == LET e == Nd(ei) IN
  CASE e.k = "num" -> IVal(S16(e.v))
    [] e.k = "id" -> LET b == Lk(e.n, env) IN
                     (CASE b.k = "con" -> IVal(b.v)
                       [] b.k = "var" -> Load(b.t, b.a)
                       [] b.k = "fn" -> [t |-> Ptr(<<"fn", b.rt>>), v |-> FnBase + b.f])
    [] e.k = "bin" -> Bin(e.op, RV(e.l), RV(e.r))
    [] e.k = "un" -> (CASE e.op = "*" -> LoadL(LV(ei))
                       [] e.op = "&" -> (LET l == LV(e.e) IN IF IsU(l) THEN l ELSE [t |-> Ptr(l.t), v |-> l.v])
                       [] OTHER -> Un(e.op, RV(e.e)))
    [] e.k \in {"idx", "mem", "arrow"} -> LoadL(LV(ei))
    [] e.k = "and" -> LET a == RV(e.l) IN
                      IF IsU(a) THEN a ELSE IF ~Truth(a) THEN IVal(0)
                      ELSE LET b == RV(e.r) IN IF IsU(b) THEN b ELSE BoolV(Truth(b))
    [] e.k = "or" -> LET a == RV(e.l) IN
                      IF IsU(a) THEN a ELSE IF Truth(a) THEN IVal(1)
                      ELSE LET b == RV(e.r) IN IF IsU(b) THEN b ELSE BoolV(Truth(b))
    [] e.k = "cond" -> LET c == RV(e.c) IN
                       IF IsU(c) THEN c ELSE CondConv(ei, IF Truth(c) THEN RV(e.a) ELSE RV(e.b))
    [] e.k = "comma" -> RV(e.r)
    [] e.k = "cast" -> Conv(Res(e.t, env), RV(e.e))
    [] e.k = "sizet" -> IVal(Size(Res(e.t, env)))
    [] e.k = "sizee" -> IVal(Size(Ty(e.e)))

-----------------------------------------------------------------------------
(* Declarations of types and constants: result [s, sts] *)
RECURSIVE Lay(_, _, _, _, _)
Lay(ms, i, u, en, acc) ==
  IF i > Len(ms) THEN acc
  ELSE LET t == Res(ms[i].t, en)
           RECURSIVE SizeIn(_)
           SizeIn(x) == CASE x[1] \in {"char", "uchar"} -> 1
                          [] x[1] = "arr" -> x[3] * SizeIn(x[2])
                          [] x[1] = "st" -> sts[x[2]].size
                          [] OTHER -> 2
           sz == SizeIn(t)
       IN Lay(ms, i + 1, u, en,
              [t |-> (ms[i].n :> t) @@ acc.t,
               o |-> (ms[i].n :> (IF u THEN 0 ELSE acc.size)) @@ acc.o,
               size |-> IF u THEN (IF sz > acc.size THEN sz ELSE acc.size) ELSE acc.size + sz])
Layout(d, en) == Lay(d.ms, 1, d.u, en, [t |-> NoScope, o |-> NoScope, size |-> 0])

RECURSIVE EnumB(_, _, _, _)
EnumB(ns, i, nextv, s) ==   \* the values of enumerators: given constant or one more than the last
  IF i > Len(ns) THEN s
  ELSE LET v == IF ns[i].v # 99999 THEN S16(ns[i].v) ELSE nextv
       IN EnumB(ns, i + 1, v + 1, (ns[i].n :> [k |-> "con", v |-> v]) @@ s)

-----------------------------------------------------------------------------
(* Program start: file scope *)
Tag(c, d) == [k |-> "tag", id |-> c]

NoFrame == [f |-> "top"]

Init ==
  /\ pid \in 1..Len(Progs)
  /\ n = 0 /\ md = "G" /\ cur = 1 /\ k = NoFrame
  /\ env = [s |-> NoScope, top |-> TRUE, up |-> 0]
  /\ genv = NoScope
  /\ mem = TLCEval([x \in 0..(Progs[pid].memsz - 1) |-> -2])
  /\ brk = 16 /\ sbrk = Progs[pid].memsz - 8
  /\ sts = <<>> /\ stat = NoScope
  /\ oi = 0 /\ res = "run"

-----------------------------------------------------------------------------
(* Verdicts *)
Verdict(r, exp) == PrintT(<<"VERDICT", pid, r, oi, n, exp>>)
Stop(r, exp) ==
  /\ Verdict(r, exp)
  /\ res' = r /\ md' = "H" /\ cur' = 0 /\ k' = NoFrame
  /\ UNCHANGED <<pid, env, genv, mem, brk, sbrk, sts, stat, oi>>

Go(m, c, kk) == md' = m /\ cur' = c /\ k' = kk
Same == UNCHANGED <<pid, genv, sbrk, sts, stat, oi, res>>
KeepStore == UNCHANGED <<mem, brk>>
Keep == UNCHANGED <<pid, env, genv, mem, brk, sbrk, sts, stat, oi, res>>

(* One file-scope item per step *)
GlobalStep ==
  /\ md = "G"
  /\ IF cur > Len(P.items)
     THEN /\ Go("E", P.entry, NoFrame)
          /\ UNCHANGED <<pid, env, genv, mem, brk, sbrk, sts, stat, oi, res>>
     ELSE LET d == P.items[cur] IN
       /\ md' = "G" /\ cur' = cur + 1 /\ k' = k
       /\ UNCHANGED <<pid, env, brk, stat, oi, res>>
       /\ CASE d.k = "fn" ->
                 /\ genv' = (d.n :> [k |-> "fn", f |-> d.f, rt |-> Res(d.rt, env)]) @@ genv
                 /\ UNCHANGED <<mem, sbrk, sts>>
            [] d.k = "enum" ->
                 /\ genv' = EnumB(d.ns, 1, 0, genv)
                 /\ UNCHANGED <<mem, sbrk, sts>>
            [] d.k = "tdef" ->
                 /\ genv' = (d.n :> [k |-> "tdef", t |-> Res(d.t, env)]) @@ genv
                 /\ UNCHANGED <<mem, sbrk, sts>>
            [] d.k = "struct" ->
                 LET b == d.n :> [k |-> "tag", id |-> Len(sts) + 1]
                     en == [env EXCEPT !.s = b] IN
                 /\ genv' = b @@ genv
                 /\ sts' = Append(sts, Layout(d, en))
                 /\ UNCHANGED <<mem, sbrk>>
            [] d.k = "gvar" ->
                 LET t0 == Res(d.t, env)
                     t == IF d.s # <<>> THEN <<"arr", t0[2], Len(d.s)>> ELSE t0
                     sz == Size(t)
                     a == sbrk - sz
                 IN /\ sbrk' = a - Gap
                    /\ genv' = (d.n :> [k |-> "var", t |-> t, a |-> a]) @@ genv
                    /\ mem' = IF d.s # <<>> THEN PutBytes(mem, a, d.s)
                              ELSE IF d.hi THEN Put(Fill(mem, a, sz, 0), t, a, RV(d.i))
                              ELSE Fill(mem, a, sz, 0)
                    /\ UNCHANGED sts

-----------------------------------------------------------------------------
(* Operands of strict operators, evaluated left to right *)
Ops(ei) == LET e == Nd(ei) IN
          CASE e.k \in {"bin", "comma"} -> << <<"E", e.l>>, <<"E", e.r>> >>
            [] e.k = "un" -> IF e.op = "&" THEN << <<"L", e.e>> >> ELSE << <<"E", e.e>> >>
            [] e.k = "idx" -> << <<"E", e.a>>, <<"E", e.i>> >>
            [] e.k = "mem" -> << <<"L", e.e>> >>
            [] e.k \in {"arrow", "cast", "obs"} -> << <<"E", e.e>> >>
            [] e.k = "asg" -> << <<"L", e.l>>, <<"E", e.r>> >>
            [] e.k = "inc" -> << <<"L", e.e>> >>
            [] e.k = "call" -> << <<"E", e.f>> >> \o [i \in 1..Len(e.as) |-> <<"E", e.as[i]>>]
            [] e.k = "vastart" -> << <<"L", e.ap>>, <<"L", e.last>> >>
            [] e.k = "vaarg" -> << <<"L", e.ap>> >>

PV(o) == IF o[1] = "L" THEN LV(o[2]) ELSE RV(o[2])
RECURSIVE Adv(_, _)    \* evaluate leading pure operands
Adv(ops, vs) == IF Len(vs) < Len(ops) /\ Nd(ops[Len(vs) + 1][2]).p
                THEN Adv(ops, Append(vs, PV(ops[Len(vs) + 1])))
                ELSE vs

Store(l, x, kk, result) ==   \* store x (already converted) to lvalue l, continue with result
  IF IsU(l) \/ IsU(x) THEN Stop("undef", "store")
  ELSE IF ~CanStore(l.t, l.v) THEN Stop("undef", "address")
  ELSE /\ mem' = IF l.t[1] = "st" THEN CopyMem(mem, l.v, x.v, Size(l.t)) ELSE Put(mem, l.t, l.v, x)
       /\ Go("V", result, kk)
       /\ UNCHANGED <<env, brk>> /\ Same

(* All operands vs of e are known; m is the mode in which e is evaluated *)
Obs(vs, kk) ==
  IF IsU(vs[1]) THEN Stop("undef", "obs")
  ELSE IF oi < Len(P.obs) /\ P.obs[oi + 1] = W16(vs[1].v)
  THEN /\ oi' = oi + 1
       /\ Go("V", [t |-> TVoid, v |-> 0], kk)
       /\ UNCHANGED <<pid, env, genv, mem, brk, sbrk, sts, stat, res>>
  ELSE Stop("mismatch", W16(vs[1].v))

RECURSIVE BindArgs(_, _, _, _, _)
BindArgs(ps, i, a, s, en) ==
  IF i > Len(ps) THEN s
  ELSE BindArgs(ps, i + 1, a + 2, (ps[i].n :> [k |-> "var", t |-> Res(ps[i].t, en), a |-> a]) @@ s, en)

ArgBytes(vs) == [i \in 1..(2 * (Len(vs) - 1)) |->
                   LET w == W16(vs[((i + 1) \div 2) + 1].v) IN IF i % 2 = 1 THEN w % 256 ELSE w \div 256]

Call(vs, kk) ==
  LET F == P.funcs[vs[1].v - FnBase]
      na == Len(vs) - 1
      base == brk
      top == brk + 2 * na + Gap
  IN IF \E i \in 1..Len(vs) : IsU(vs[i]) THEN Stop("undef", "arg")
     ELSE IF top + 64 > sbrk THEN Stop("undef", "memory")
     ELSE /\ env' = [s |-> BindArgs(F.ps, 1, base, NoScope, FileScope), top |-> TRUE, up |-> 0]
          /\ mem' = IF na = 0 THEN mem ELSE IF na = 1 THEN Put(mem, TInt, base, vs[2])
                    ELSE PutBytes(mem, base, ArgBytes(vs))
          /\ brk' = top
          /\ Go("S", F.body, [f |-> "call", en |-> env, bk |-> brk, rt |-> Res(F.rt, FileScope), body |-> F.body, nx |-> kk])
          /\ Same

IncVal(l, d) == LET x == LoadL(l) IN
                IF IsU(x) THEN x
                ELSE IF l.t[1] = "ptr" THEN [t |-> l.t, v |-> W16(x.v + d * Size(l.t[2]))]
                ELSE Conv(l.t, IVal(x.v + d))

Finish(m, ei, vs, kk) ==
  LET e == Nd(ei)
      Val(x) == Go("V", x, kk) /\ Keep
      LVal(l) == IF m = "L" THEN Val(l) ELSE Val(LoadL(l))
  IN CASE e.k = "bin" -> Val(Bin(e.op, vs[1], vs[2]))
       [] e.k = "comma" -> Val(vs[2])
       [] e.k = "un" -> (CASE e.op = "*" -> LVal(Deref(vs[1]))
                          [] e.op = "&" -> Val(IF IsU(vs[1]) THEN vs[1] ELSE [t |-> Ptr(vs[1].t), v |-> vs[1].v])
                          [] OTHER -> Val(Un(e.op, vs[1])))
       [] e.k = "idx" -> LVal(Elem(vs[1], vs[2]))
       [] e.k = "mem" -> LVal(IF IsU(vs[1]) THEN vs[1] ELSE Member(vs[1].t[2], e.n, vs[1].v))
       [] e.k = "arrow" -> LVal(IF IsU(vs[1]) THEN vs[1] ELSE Member(vs[1].t[2][2], e.n, vs[1].v))
       [] e.k = "cast" -> Val(Conv(Res(e.t, env), vs[1]))
       [] e.k = "obs" -> Obs(vs, kk)
       [] e.k = "asg" ->
            LET l == vs[1]
                x == IF e.op = "" THEN vs[2] ELSE Bin(e.op, LoadL(l), vs[2])
                y == IF IsU(l) \/ IsU(x) THEN Undef ELSE Conv(l.t, x)
            IN Store(l, y, kk, IF m = "L" THEN l ELSE IF l.t[1] = "st" THEN l ELSE y)
       [] e.k = "inc" ->
            LET l == vs[1]
                y == IF IsU(l) THEN l ELSE IncVal(l, e.d)
            IN Store(l, y, kk, IF e.pre THEN y ELSE LoadL(l))
       [] e.k = "call" -> Call(vs, kk)
       [] e.k = "vastart" -> Store(vs[1], [t |-> vs[1].t, v |-> vs[2].v], kk, [t |-> TVoid, v |-> 0])
       [] e.k = "vaarg" -> LET p == LoadL(vs[1]) t == Res(e.t, env) IN
                           IF IsU(p) THEN Stop("undef", "vaarg")
                           ELSE Store(vs[1], [t |-> vs[1].t, v |-> p.v + 2], kk,
                                      IF m = "L" THEN [t |-> t, v |-> p.v + 2] ELSE Load(t, p.v + 2))

Continue(m, e, vs0, kk) ==   \* evaluate the remaining operands of e
  LET ops == Ops(e)
      vs == Adv(ops, vs0)
  IN IF Len(vs) = Len(ops) THEN Finish(m, e, vs, kk)
     ELSE /\ Go(ops[Len(vs) + 1][1], ops[Len(vs) + 1][2], [f |-> "ops", m |-> m, e |-> e, vs |-> vs, nx |-> kk])
          /\ Keep

Start(m, ei, kk) ==           \* evaluate e in mode m, then continue with kk
  LET e == Nd(ei) IN
  IF e.p THEN Go("V", IF m = "L" THEN LV(ei) ELSE RV(ei), kk) /\ Keep
  ELSE IF e.k \in {"and", "or"} THEN Go("E", e.l, [f |-> e.k, e |-> ei, nx |-> kk]) /\ Keep
  ELSE IF e.k = "cond" THEN Go("E", e.c, [f |-> "cond", m |-> m, e |-> ei, nx |-> kk]) /\ Keep
  ELSE Continue(m, ei, <<>>, kk)

ExprStep == md \in {"E", "L"} /\ Start(md, cur, k)

-----------------------------------------------------------------------------
(* Leaving blocks: returns [k, env, brk] at the first frame of a kind in fs *)
RECURSIVE Unw(_, _, _, _)
Unw(kk, en, bk, fs) ==
  IF kk.f \in fs THEN [k |-> kk, env |-> en, brk |-> bk]
  ELSE IF kk.f = "seq" THEN Unw(kk.nx, kk.en, kk.bk, fs)
  ELSE Unw(kk.nx, en, bk, fs)

Leave(u, m, c, kk) ==   \* continue in mode m after unwinding to u
  /\ env' = u.env /\ brk' = u.brk
  /\ Go(m, c, kk)
  /\ mem' = mem /\ Same

DoReturn(x) ==
  LET u == Unw(k, env, brk, {"call", "top"})
      kk == u.k
  IN IF kk.f = "top" THEN Stop("undef", "return")
     ELSE /\ env' = kk.en /\ brk' = kk.bk
          /\ Go("V", IF kk.rt[1] = "void" THEN [t |-> TVoid, v |-> 0] ELSE Conv(kk.rt, x), kk.nx)
          /\ mem' = mem /\ Same

SeqFrame(si, i, kk) == LET st == Nd(si) IN
                       [f |-> "seq", ss |-> st.ss, i |-> i, b |-> st.b, en |-> env, bk |-> brk, nx |-> kk]
Inner == [s |-> NoScope, top |-> FALSE, up |-> env]

-----------------------------------------------------------------------------
(* Entering a statement at a label: goto rebuilds the continuation of the   *)
(* labelled position from the function body (scopes of blocks that are     *)
(* still active are kept); switch does the same with a case of its body.   *)
(* A target is [k |-> "label", l |-> name], [k |-> "case", v |-> value] or  *)
(* [k |-> "default"].                                                       *)
IsTarget(st, t) == /\ st.k = t.k
                   /\ CASE t.k = "label" -> st.l = t.l
                        [] t.k = "case" -> S16(st.v) = t.v
                        [] OTHER -> TRUE
RECURSIVE Has(_, _)
Has(si, t) == LET st == Nd(si) IN
              CASE st.k \in {"label", "case", "default"} -> IsTarget(st, t)
                [] st.k = "block" -> \E i \in 1..Len(st.ss) : Has(st.ss[i], t)
                [] st.k = "if" -> Has(st.a, t) \/ (st.he /\ Has(st.b, t))
                [] st.k \in {"while", "do", "for"} -> Has(st.body, t)
                [] st.k = "switch" -> t.k = "label" /\ Has(st.body, t)
                [] OTHER -> FALSE
RECURSIVE Scopes(_, _)
Scopes(kk, en) == IF kk.f = "call" THEN NoScope
                  ELSE IF kk.f = "seq" THEN (kk.b :> en.s) @@ Scopes(kk.nx, kk.en)
                  ELSE Scopes(kk.nx, en)

RECURSIVE DeclUpTo(_, _, _, _)   \* scope of a block just before its element i: acc = [s, old, up, mem, brk, sbrk, stat, sts]
DeclUpTo(ss, j, i, acc) ==
  IF j >= i THEN acc
  ELSE LET d == Nd(ss[j])
           en == [s |-> acc.s, top |-> FALSE, up |-> acc.up]
           Next(x) == DeclUpTo(ss, j + 1, i, x)
           Old(x) == Next([acc EXCEPT !.s = (x :> acc.old[x]) @@ @])
       IN
       CASE d.k = "decl" ->
              IF d.n \in DOMAIN acc.old THEN Old(d.n)
              ELSE IF d.st /\ d.sid \in DOMAIN acc.stat THEN Next([acc EXCEPT !.s = (d.n :> acc.stat[d.sid]) @@ @])
              ELSE LET t == Res(d.t, en)
                       a == IF d.st THEN acc.sbrk - Size(t) ELSE acc.brk
                       x == [k |-> "var", t |-> t, a |-> a]
                   IN IF d.st
                      THEN Next([acc EXCEPT !.s = (d.n :> x) @@ @, !.mem = Fill(@, a, Size(t), 0), !.sbrk = a - Gap,
                                            !.stat = (d.sid :> x) @@ @])
                      ELSE Next([acc EXCEPT !.s = (d.n :> x) @@ @, !.mem = Fill(@, a, Size(t), -1), !.brk = @ + Size(t) + Gap])
         [] d.k = "enum" -> Next([acc EXCEPT !.s = EnumB(d.ns, 1, 0, @)])
         [] d.k = "tdef" -> Next([acc EXCEPT !.s = (d.n :> [k |-> "tdef", t |-> Res(d.t, en)]) @@ @])
         [] d.k = "struct" ->
              IF d.n \in DOMAIN acc.old THEN Old(d.n)
              ELSE LET e2 == [en EXCEPT !.s = (d.n :> [k |-> "tag", id |-> Len(acc.sts) + 1]) @@ @]
                   IN Next([acc EXCEPT !.s = e2.s, !.sts = Append(@, Layout(d, e2))])
         [] OTHER -> Next(acc)

RECURSIVE Locate(_, _, _)
(* acc = [k, env, mem, brk, sbrk, stat, sts, bk, act]; bk: where the block's storage begins; act: scopes of active blocks *)
Locate(si, l, acc) ==
  LET st == Nd(si) IN
  CASE st.k = "block" ->
         LET i == CHOOSE i \in 1..Len(st.ss) : Has(st.ss[i], l)
             old == IF st.b \in DOMAIN acc.act THEN acc.act[st.b] ELSE NoScope
             r == DeclUpTo(st.ss, 1, i, [s |-> NoScope, old |-> old, up |-> acc.env, mem |-> acc.mem, brk |-> acc.brk,
                                         sbrk |-> acc.sbrk, stat |-> acc.stat, sts |-> acc.sts])
             fr == [f |-> "seq", ss |-> st.ss, i |-> i + 1, b |-> st.b, en |-> acc.env, bk |-> acc.bk, nx |-> acc.k]
             a2 == [acc EXCEPT !.k = fr, !.env = [s |-> r.s, top |-> FALSE, up |-> acc.env], !.mem = r.mem, !.brk = r.brk, !.bk = r.brk,
                              !.sbrk = r.sbrk, !.stat = r.stat, !.sts = r.sts]
         IN IF Nd(st.ss[i]).k \in {"label", "case", "default"} THEN a2 ELSE Locate(st.ss[i], l, a2)
    [] st.k = "if" -> IF Has(st.a, l) THEN Locate(st.a, l, acc) ELSE Locate(st.b, l, acc)
    [] st.k \in {"while", "do", "for"} -> Locate(st.body, l, [acc EXCEPT !.k = [f |-> "loop", st |-> si, nx |-> acc.k]])
    [] st.k = "switch" -> Locate(st.body, l, [acc EXCEPT !.k = [f |-> "switch", nx |-> acc.k]])


Arrive(r) == /\ env' = r.env /\ mem' = r.mem /\ brk' = r.brk
             /\ sbrk' = r.sbrk /\ stat' = r.stat /\ sts' = r.sts
             /\ UNCHANGED <<pid, genv, oi, res>>

DoCond(si, x, kk) ==    \* a controlling expression has the value x
  LET st == Nd(si) IN
  IF IsU(x) THEN Stop("undef", "cond")
  ELSE CASE st.k = "if" ->
              IF Truth(x) THEN Go("S", st.a, kk) /\ Keep
              ELSE IF st.he THEN Go("S", st.b, kk) /\ Keep
              ELSE Go("N", 0, kk) /\ Keep
         [] st.k \in {"while", "for"} ->
              IF Truth(x) THEN Go("S", st.body, [f |-> "loop", st |-> si, nx |-> kk]) /\ Keep
              ELSE Go("N", 0, kk) /\ Keep
         [] st.k = "do" ->
              IF Truth(x) THEN Go("S", si, kk) /\ Keep ELSE Go("N", 0, kk) /\ Keep
         [] st.k = "switch" ->
              LET cs == [k |-> "case", v |-> S16(x.v)]
                  t == IF Has(st.body, cs) THEN cs ELSE [k |-> "default"]
                  r == Locate(st.body, t, [k |-> [f |-> "switch", nx |-> kk], env |-> env, mem |-> mem, brk |-> brk,
                                           bk |-> brk, act |-> NoScope, sbrk |-> sbrk, stat |-> stat, sts |-> sts])
              IN IF ~Has(st.body, t) THEN Go("N", 0, kk) /\ Keep
                 ELSE Go("N", 0, r.k) /\ Arrive(r)

EvalCond(si, c, kk) == IF Nd(c).p THEN DoCond(si, RV(c), kk)
                       ELSE Go("E", c, [f |-> "ctl", st |-> si, nx |-> kk]) /\ Keep

LoopTop(si, kk) == LET st == Nd(si) IN
                   IF st.k = "for" /\ ~st.hc
                   THEN Go("S", st.body, [f |-> "loop", st |-> si, nx |-> kk]) /\ Keep
                   ELSE EvalCond(si, st.c, kk)

DoGoto(l0) ==
  LET u == Unw(k, env, brk, {"call", "top"})
      r == Locate(u.k.body, [k |-> "label", l |-> l0], [k |-> u.k, env |-> u.env, mem |-> mem, brk |-> brk, bk |-> u.brk, act |-> Scopes(k, env),
                                                               sbrk |-> sbrk, stat |-> stat, sts |-> sts])
  IN Go("N", 0, r.k) /\ Arrive(r)

-----------------------------------------------------------------------------
Declare(d) ==
  IF d.st THEN
    IF d.sid \in DOMAIN stat
    THEN /\ env' = [env EXCEPT !.s = (d.n :> stat[d.sid]) @@ @]
         /\ Go("N", 0, k)
         /\ UNCHANGED <<pid, genv, mem, brk, sbrk, sts, stat, oi, res>>
    ELSE LET t == Res(d.t, env)
             a == sbrk - Size(t)
             b == [k |-> "var", t |-> t, a |-> a]
         IN /\ env' = [env EXCEPT !.s = (d.n :> b) @@ @]
            /\ mem' = Fill(mem, a, Size(t), 0)
            /\ stat' = (d.sid :> b) @@ stat
            /\ sbrk' = a - Gap
            /\ Go("N", 0, k)
            /\ UNCHANGED <<pid, genv, brk, sts, oi, res>>
  ELSE LET t == Res(d.t, env)
           en == [env EXCEPT !.s = (d.n :> [k |-> "var", t |-> t, a |-> brk]) @@ @]
       IN IF brk + Size(t) + Gap + 64 > sbrk THEN Stop("undef", "memory")
          ELSE /\ env' = en
               /\ mem' = Fill(mem, brk, Size(t), -1)
               /\ brk' = brk + Size(t) + Gap
               /\ IF d.hi THEN Go("E", d.i, [f |-> "init", l |-> [t |-> t, v |-> brk], nx |-> k])
                  ELSE Go("N", 0, k)
               /\ Same

StmtStep ==
  /\ md = "S"
  /\ LET st == Nd(cur) IN
     CASE st.k = "block" -> Go("N", 0, SeqFrame(cur, 1, k)) /\ env' = Inner /\ KeepStore /\ Same
       [] st.k = "expr" -> IF Nd(st.e).p THEN Go("N", 0, k) /\ Keep
                           ELSE Start("E", st.e, [f |-> "drop", nx |-> k])
       [] st.k \in {"if", "switch"} -> EvalCond(cur, st.c, k)
       [] st.k = "while" -> LoopTop(cur, k)
       [] st.k = "do" -> Go("S", st.body, [f |-> "loop", st |-> cur, nx |-> k]) /\ Keep
       [] st.k = "for" -> IF st.hi THEN Start("E", st.i, [f |-> "forinit", st |-> cur, nx |-> k])
                          ELSE LoopTop(cur, k)
       [] st.k = "break" ->
            LET u == Unw(k, env, brk, {"loop", "switch"}) IN Leave(u, "N", 0, u.k.nx)
       [] st.k = "continue" ->
            LET u == Unw(k, env, brk, {"loop"}) IN Leave(u, "N", 0, u.k)
       [] st.k = "goto" -> DoGoto(st.l)
       [] st.k = "return" -> IF ~st.he THEN DoReturn(Undef)
                             ELSE IF Nd(st.e).p THEN DoReturn(RV(st.e))
                             ELSE Start("E", st.e, [f |-> "ret", nx |-> k])
       [] st.k = "decl" -> Declare(st)
       [] st.k = "enum" -> env' = [env EXCEPT !.s = EnumB(st.ns, 1, 0, @)] /\ Go("N", 0, k) /\ KeepStore /\ Same
       [] st.k = "tdef" -> env' = [env EXCEPT !.s = (st.n :> [k |-> "tdef", t |-> Res(st.t, env)]) @@ @]
                           /\ Go("N", 0, k) /\ KeepStore /\ Same
       [] st.k = "struct" ->
            LET en == [env EXCEPT !.s = (st.n :> [k |-> "tag", id |-> Len(sts) + 1]) @@ @] IN
            /\ env' = en /\ sts' = Append(sts, Layout(st, en))
            /\ Go("N", 0, k)
            /\ UNCHANGED <<pid, genv, mem, brk, sbrk, stat, oi, res>>
       [] OTHER -> Go("N", 0, k) /\ Keep    \* empty statements, labels, case markers, padding

(* A statement is finished: what comes next *)
NextStep ==
  /\ md = "N"
  /\ CASE k.f = "seq" ->
            IF k.i > Len(k.ss)
            THEN /\ env' = k.en /\ brk' = k.bk /\ Go("N", 0, k.nx) /\ mem' = mem /\ Same
            ELSE /\ Go("S", k.ss[k.i], [k EXCEPT !.i = @ + 1]) /\ Keep
       [] k.f = "loop" ->
            IF Nd(k.st).k = "for" /\ Nd(k.st).hn
            THEN Start("E", Nd(k.st).n, [f |-> "forinit", st |-> k.st, nx |-> k.nx])
            ELSE IF Nd(k.st).k = "do" THEN EvalCond(k.st, Nd(k.st).c, k.nx)
            ELSE LoopTop(k.st, k.nx)
       [] k.f = "switch" -> Go("N", 0, k.nx) /\ Keep
       [] k.f = "call" -> DoReturn(Undef)

(* A value is available *)
ValueStep ==
  /\ md = "V"
  /\ CASE k.f = "ops" -> Continue(k.m, k.e, Append(k.vs, cur), k.nx)
       [] k.f = "drop" -> Go("N", 0, k.nx) /\ Keep
       [] k.f = "forinit" -> LoopTop(k.st, k.nx)
       [] k.f = "ctl" -> DoCond(k.st, cur, k.nx)
       [] k.f = "ret" -> DoReturn(cur)
       [] k.f = "init" -> IF IsU(cur) THEN Stop("undef", "init")
                          ELSE Store(k.l, Conv(k.l.t, cur), [f |-> "drop", nx |-> k.nx], cur)
       [] k.f = "and" -> IF IsU(cur) THEN Stop("undef", "and")
                         ELSE IF ~Truth(cur) THEN Go("V", IVal(0), k.nx) /\ Keep
                         ELSE Go("E", Nd(k.e).r, [f |-> "bool", nx |-> k.nx]) /\ Keep
       [] k.f = "or" -> IF IsU(cur) THEN Stop("undef", "or")
                        ELSE IF Truth(cur) THEN Go("V", IVal(1), k.nx) /\ Keep
                        ELSE Go("E", Nd(k.e).r, [f |-> "bool", nx |-> k.nx]) /\ Keep
       [] k.f = "bool" -> Go("V", IF IsU(cur) THEN cur ELSE BoolV(Truth(cur)), k.nx) /\ Keep
       [] k.f = "cond" -> IF IsU(cur) THEN Stop("undef", "cond")
                          ELSE Go(k.m, IF Truth(cur) THEN Nd(k.e).a ELSE Nd(k.e).b,
                                  IF k.m = "L" THEN k.nx ELSE [f |-> "condv", e |-> k.e, nx |-> k.nx]) /\ Keep
       [] k.f = "condv" -> Go("V", CondConv(k.e, cur), k.nx) /\ Keep
       [] OTHER -> FALSE

(* The entry statement is done: main returned *)
HaltStep ==
  /\ md \in {"N", "V"} /\ k.f = "top"
  /\ IF oi # Len(P.obs) THEN Stop("mismatch", "extra observations")
     ELSE IF md = "V" /\ ~IsU(cur) /\ cur.t[1] # "void" /\ P.exit # cur.v % 256 THEN Stop("mismatch", "exit code")
     ELSE Stop("ok", 0)

Next ==
  /\ res = "run"
  /\ n' = n + 1
  /\ IF n >= MaxSteps THEN Stop("fuel", 0)
     ELSE IF k.f = "top" /\ md \in {"N", "V"} THEN HaltStep
     ELSE \/ GlobalStep \/ ExprStep \/ StmtStep \/ NextStep \/ ValueStep

Spec == Init /\ [][Next]_vars

(* States are identified by program and step: every program is sequential *)
View == <<pid, n>>

(* Sanity of the machine itself *)
MachineOK == /\ oi <= Len(P.obs)
             /\ brk <= sbrk
             /\ res \in {"run", "ok", "undef", "mismatch", "fuel"}
=============================================================================
