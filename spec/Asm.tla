-------------------------------- MODULE Asm --------------------------------
(***************************************************************************)
(* The assembler language and what a source file means.                    *)
(*                                                                         *)
(* A case is a source file, the exit code of the real assembler, the line  *)
(* its message names and the bytes it wrote.  The machine below assembles  *)
(* one statement per step: it keeps the address counter, the labels, and   *)
(* what remains to be checked once all labels are known.  The encoding of  *)
(* an instruction is the assembler's choice: the bytes it wrote are        *)
(* decoded with an 8086 decoder and must be the instruction written in the *)
(* source.  When the assembler rejected the source, the machine goes       *)
(* through it with the lengths of the shortest encodings, and must find a  *)
(* fault on the line named.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise, SequencesExt

Cases == ndJsonDeserialize(IOEnv.ASM_CASES)

VARIABLES pid, tk, a, res
vars == <<pid, tk, a, res>>

P == Cases[pid]

-----------------------------------------------------------------------------
(* Words *)
W(x) == x % 65536
SX(x) == LET y == W(x) IN IF y >= 32768 THEN y - 65536 ELSE y
SX8(x) == LET y == x % 256 IN IF y >= 128 THEN y - 256 ELSE y
IsShort(x) == SX(x) >= -128 /\ SX(x) <= 127
FitsByte(x) == W(x) < 256 \/ W(x) >= 65408      \* -128..255
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>

-----------------------------------------------------------------------------
(* Names *)
Regs8 == <<"AL", "CL", "DL", "BL", "AH", "CH", "DH", "BH">>
Regs16 == <<"AX", "CX", "DX", "BX", "SP", "BP", "SI", "DI">>
Segs == <<"ES", "CS", "SS", "DS">>
Directives == {"CPU", "DB", "DW", "EQU", "ORG", "RESB", "RESW"}
AluOps == <<"ADD", "OR", "ADC", "SBB", "AND", "SUB", "XOR", "CMP">>
Plain == {"CBW", "CLC", "CLI", "CMPSB", "CWD", "LODSB", "MOVSB", "REP", "RET", "STC", "STI", "STOSB", "STOSW"}
RotOps == {"SHL", "SHR", "SAR"}
UnOps == {"NOT", "NEG", "MUL", "IMUL", "DIV", "IDIV"}
JccNames == << <<"JO">>, <<"JNO">>, <<"JC", "JB", "JNAE">>, <<"JNC", "JNB", "JAE">>, <<"JZ", "JE">>, <<"JNZ", "JNE">>,
               <<"JNA", "JBE">>, <<"JA", "JNBE">>, <<"JS">>, <<"JNS">>, <<"JPE">>, <<"JPO">>,
               <<"JL", "JNGE">>, <<"JNL", "JGE">>, <<"JNG", "JLE">>, <<"JG", "JNLE">> >>
JccAll == UNION {{JccNames[i][j] : j \in 1..Len(JccNames[i])} : i \in 1..16}
Jcc(s) == (CHOOSE i \in 1..16 : \E j \in 1..Len(JccNames[i]) : JccNames[i][j] = s) - 1
AluSet == {AluOps[i] : i \in 1..8}
Insts == AluSet \cup Plain \cup RotOps \cup UnOps \cup JccAll
         \cup {"CALL", "DEC", "INC", "INT", "JMP", "LEA", "MOV", "POP", "PUSH", "TEST", "XCHG"}
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Idx(x, s) == (CHOOSE i \in 1..Len(s) : s[i] = x) - 1
Builtin == Insts \cup Directives \cup {Regs8[i] : i \in 1..8} \cup {Regs16[i] : i \in 1..8} \cup {Segs[i] : i \in 1..4} \cup {"BYTE", "SHORT", "WORD"}

-----------------------------------------------------------------------------
(* Tokens: [k |-> "num", v] ["str", v: bytes] ["nam", s] (built in, upper   *)
(* case) ["id", s] ["op", s] ["bad"] ["eof"], each with its line ln         *)
IsDig(c) == c >= 48 /\ c <= 57
IsId(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95 \/ c = 46 \/ c = 36
HexV(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
Upper == [x \in {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"} |->
          CASE x = "a" -> "A" [] x = "b" -> "B" [] x = "c" -> "C" [] x = "d" -> "D" [] x = "e" -> "E" [] x = "f" -> "F" [] x = "g" -> "G"
            [] x = "h" -> "H" [] x = "i" -> "I" [] x = "j" -> "J" [] x = "k" -> "K" [] x = "l" -> "L" [] x = "m" -> "M" [] x = "n" -> "N"
            [] x = "o" -> "O" [] x = "p" -> "P" [] x = "q" -> "Q" [] x = "r" -> "R" [] x = "s" -> "S" [] x = "t" -> "T" [] x = "u" -> "U"
            [] x = "v" -> "V" [] x = "w" -> "W" [] x = "x" -> "X" [] x = "y" -> "Y" [] x = "z" -> "Z"]
Up(c) == IF c \in DOMAIN Upper THEN Upper[c] ELSE c
Span(i, j) == [k \in 1..(j - i + 1) |-> i + k - 1]

Tok(k, s, v, ln) == [k |-> k, s |-> s, v |-> v, ln |-> ln]

\* The lexer: m is the mode ("sp" between tokens, "com", "num", "id", "str", "lt" after one <, "end" after an error),
\* st the index at which the token began
LexAll(b, c) ==   \* b: character codes, c: the characters
  LET n == Len(b)
      text(i, j) == FoldLeft(LAMBDA s, k : s \o c[k], "", Span(i, j))
      upper(i, j) == FoldLeft(LAMBDA s, k : s \o Up(c[k]), "", Span(i, j))
      \* value of the digits at i..j in this base; 65536 if too large, -1 if malformed
      value(i, j, base) == IF j < i THEN -1
                           ELSE FoldLeft(LAMBDA v, k : IF v = -1 \/ HexV(b[k]) >= base THEN -1
                                                       ELSE IF v * base + HexV(b[k]) > 65535 THEN 65536 ELSE v * base + HexV(b[k]), 0, Span(i, j))
      number(i, j) == IF b[i] = 48 /\ j > i /\ b[i + 1] \in {88, 120} THEN value(i + 2, j, 16) ELSE value(i, j, 10)
      emit(s, t) == [s EXCEPT !.m = "sp", !.ts = Append(@, t)]
      bad(s, w) == [s EXCEPT !.m = "end", !.ts = Append(@, Tok("bad", w, 0, s.ln))]
      \* the token that ends before index i
      flush(s, i) ==
        CASE s.m = "num" -> LET v == number(s.st, i - 1) IN IF v = -1 \/ v > 65535 THEN bad(s, "number") ELSE emit(s, Tok("num", "", v, s.ln))
          [] s.m = "id" -> LET u == upper(s.st, i - 1) IN
               IF i - s.st > 63 THEN bad(s, "long name")
               ELSE emit(s, IF u \in Builtin THEN Tok("nam", u, 0, s.ln) ELSE Tok("id", text(s.st, i - 1), IF b[s.st] = 46 THEN 1 ELSE 0, s.ln))
          [] s.m = "lt" -> bad(s, "character")
          [] OTHER -> s
      fresh(s, i) ==
        LET ch == b[i] IN
        CASE s.m = "end" -> s
          [] ch = 10 -> [s EXCEPT !.ln = @ + 1]
          [] ch >= 1 /\ ch <= 32 -> s
          [] ch = 59 -> [s EXCEPT !.m = "com"]
          [] IsDig(ch) -> [s EXCEPT !.m = "num", !.st = i]
          [] IsId(ch) -> [s EXCEPT !.m = "id", !.st = i]
          [] ch = 39 -> [s EXCEPT !.m = "str", !.st = i]
          [] ch \in {43, 45, 58, 44, 91, 93, 124, 126} -> emit(s, Tok("op", c[i], 0, s.ln))
          [] ch = 60 -> [s EXCEPT !.m = "lt"]
          [] OTHER -> bad(s, "character")
      step(s, i) ==
        LET ch == b[i] IN
        CASE s.m = "end" -> s
          [] s.m = "com" -> IF ch = 10 THEN [s EXCEPT !.m = "sp", !.ln = @ + 1] ELSE IF ch = 0 THEN bad(s, "character") ELSE s
          [] s.m \in {"num", "id"} /\ (IsId(ch) \/ IsDig(ch)) -> s
          [] s.m = "str" -> IF ch = 39 THEN (IF i - s.st - 1 > 127 THEN bad(s, "string") ELSE emit(s, Tok("str", "", SubSeq(b, s.st + 1, i - 1), s.ln)))
                            ELSE IF ch \in {0, 10} THEN bad(s, "string") ELSE s
          [] s.m = "lt" /\ ch = 60 -> emit(s, Tok("op", "<<", 0, s.ln))
          [] OTHER -> fresh(flush(s, i), i)
      e == FoldLeft(step, [m |-> "sp", st |-> 0, ln |-> 1, ts |-> <<>>], Span(1, n))
      z == IF e.m = "str" THEN bad(e, "string") ELSE flush(e, n + 1)
  IN IF z.m = "end" THEN z.ts ELSE Append(z.ts, Tok("eof", "", 0, z.ln))

T(p) == IF p <= Len(tk) THEN tk[p] ELSE tk[Len(tk)]
IsOp(p, s) == T(p).k = "op" /\ T(p).s = s
IsNam(p, s) == T(p).k = "nam" /\ T(p).s = s

-----------------------------------------------------------------------------
(* Labels.  A name that starts with a dot belongs to the last global label. *)
Local(t) == t.v = 1
KeyOf(t) == IF Local(t) THEN <<a.scope, t.s>> ELSE <<"", t.s>>
Known(t) == KeyOf(t) \in DOMAIN a.lab
IsEqu(p) == T(p).k = "id" /\ Known(T(p)) /\ a.lab[KeyOf(T(p))].k = "equ"
EquV(p) == a.lab[KeyOf(T(p))].v
IsLabel(p) == T(p).k = "id" /\ ~IsEqu(p)

-----------------------------------------------------------------------------
(* Expressions of constants: or < shift < add < unary.  [ok, v, p]          *)
Fail == [ok |-> FALSE, v |-> 0, p |-> 0]
RECURSIVE Unary(_), AddRest(_), ShRest(_), OrRest(_)
Unary(p) ==
  CASE T(p).k = "num" -> [ok |-> TRUE, v |-> T(p).v, p |-> p + 1]
    [] IsEqu(p) -> [ok |-> TRUE, v |-> EquV(p), p |-> p + 1]
    [] T(p).k = "str" -> LET s == T(p).v IN
         IF Len(s) = 1 THEN [ok |-> TRUE, v |-> s[1], p |-> p + 1]
         ELSE IF Len(s) = 2 THEN [ok |-> TRUE, v |-> s[1] + 256 * s[2], p |-> p + 1] ELSE Fail
    [] IsOp(p, "+") -> Unary(p + 1)
    [] IsOp(p, "-") -> LET r == Unary(p + 1) IN IF r.ok THEN [r EXCEPT !.v = W(-r.v)] ELSE r
    [] IsOp(p, "~") -> LET r == Unary(p + 1) IN IF r.ok THEN [r EXCEPT !.v = 65535 - r.v] ELSE r
    [] OTHER -> Fail
AddRest(l) ==
  IF ~l.ok \/ ~(IsOp(l.p, "+") \/ IsOp(l.p, "-")) THEN l
  ELSE LET r == Unary(l.p + 1) IN
       IF ~r.ok THEN r ELSE AddRest([ok |-> TRUE, v |-> W(IF IsOp(l.p, "+") THEN l.v + r.v ELSE l.v - r.v), p |-> r.p])
AddE(p) == AddRest(Unary(p))
ShRest(l) ==
  IF ~l.ok \/ ~IsOp(l.p, "<<") THEN l
  ELSE LET r == AddE(l.p + 1) IN
       IF ~r.ok \/ r.v > 15 THEN Fail ELSE ShRest([ok |-> TRUE, v |-> IF r.v = 0 THEN l.v ELSE (l.v % P2[17 - r.v]) * P2[r.v + 1], p |-> r.p])
ShE(p) == ShRest(AddE(p))
OrRest(l) ==
  IF ~l.ok \/ ~IsOp(l.p, "|") THEN l
  ELSE LET r == ShE(l.p + 1) IN IF ~r.ok THEN r ELSE OrRest([ok |-> TRUE, v |-> l.v | r.v, p |-> r.p])
Expr(p) == OrRest(ShE(p))
StartsExpr(p) == T(p).k \in {"num", "str"} \/ IsEqu(p) \/ IsOp(p, "+") \/ IsOp(p, "-") \/ IsOp(p, "~")

-----------------------------------------------------------------------------
(* Operands.  sy: keys of the labels added, z: size (0 unknown)             *)
Reg(r, z) == [t |-> "reg", r |-> r, z |-> z, v |-> 0, sy |-> <<>>, b |-> {}, sg |-> -1, sup |-> TRUE]
Seg(r) == [t |-> "seg", r |-> r, z |-> 2, v |-> 0, sy |-> <<>>, b |-> {}, sg |-> -1, sup |-> TRUE]
Imm(v, sy) == [t |-> "imm", r |-> 0, z |-> 0, v |-> v, sy |-> sy, b |-> {}, sg |-> -1, sup |-> TRUE]
Mem(b, v, sy, sg, z, sup) == [t |-> "mem", r |-> 0, z |-> z, v |-> v, sy |-> sy, b |-> b, sg |-> sg, sup |-> sup]

NoOp == [ok |-> FALSE, o |-> Imm(0, <<>>), p |-> 0]
Bases == {{}, {"BX"}, {"BP"}, {"SI"}, {"DI"}, {"BX", "SI"}, {"BX", "DI"}, {"BP", "SI"}, {"BP", "DI"}}

RECURSIVE Terms(_, _, _, _)
Terms(p, m, neg, first) ==   \* m: [rs, v, sy, sg]
  LET next(q, m1) ==
        IF IsOp(q, "+") THEN Terms(q + 1, m1, FALSE, FALSE)
        ELSE IF IsOp(q, "-") THEN Terms(q + 1, m1, TRUE, FALSE)
        ELSE IF IsOp(q, "]") THEN [ok |-> TRUE, m |-> m1, p |-> q + 1]
        ELSE [ok |-> FALSE, m |-> m1, p |-> q]
      bad == [ok |-> FALSE, m |-> m, p |-> p]
  IN CASE first /\ T(p).k = "nam" /\ InSeq(T(p).s, Segs) ->
            IF IsOp(p + 1, ":") THEN Terms(p + 2, [m EXCEPT !.sg = Idx(T(p).s, Segs)], FALSE, FALSE) ELSE bad
       [] T(p).k = "nam" /\ T(p).s \in {"BX", "BP", "SI", "DI"} -> IF neg THEN bad ELSE next(p + 1, [m EXCEPT !.rs = Append(@, T(p).s)])
       [] T(p).k = "num" \/ IsEqu(p) ->
            LET v == IF T(p).k = "num" THEN T(p).v ELSE EquV(p) IN next(p + 1, [m EXCEPT !.v = W(IF neg THEN @ - v ELSE @ + v)])
       [] IsLabel(p) -> IF neg THEN bad ELSE next(p + 1, [m EXCEPT !.sy = Append(@, KeyOf(T(p)))])
       [] OTHER -> bad

MemOp(p, z) ==
  LET r == Terms(p, [rs |-> <<>>, v |-> 0, sy |-> <<>>, sg |-> -1], FALSE, TRUE)
      b == {r.m.rs[i] : i \in 1..Len(r.m.rs)}
  IN IF ~r.ok \/ Cardinality(b) # Len(r.m.rs) \/ b \notin Bases THEN [NoOp EXCEPT !.p = r.p]
     ELSE [ok |-> TRUE, p |-> r.p,
           o |-> Mem(b, r.m.v, r.m.sy, r.m.sg, z, (Cardinality(b) < 2 \/ r.m.rs = <<"SI", "BX">>) /\ Len(r.m.sy) < 2)]

Operand(p) ==
  CASE StartsExpr(p) -> LET e == Expr(p) IN [ok |-> e.ok, o |-> Imm(e.v, <<>>), p |-> e.p]
    [] IsOp(p, "[") -> MemOp(p + 1, 0)
    [] (IsNam(p, "BYTE") \/ IsNam(p, "WORD")) /\ IsOp(p + 1, "[") -> MemOp(p + 2, IF IsNam(p, "BYTE") THEN 1 ELSE 2)
    [] T(p).k = "nam" /\ InSeq(T(p).s, Regs8) -> [ok |-> TRUE, o |-> Reg(Idx(T(p).s, Regs8), 1), p |-> p + 1]
    [] T(p).k = "nam" /\ InSeq(T(p).s, Regs16) -> [ok |-> TRUE, o |-> Reg(Idx(T(p).s, Regs16), 2), p |-> p + 1]
    [] T(p).k = "nam" /\ InSeq(T(p).s, Segs) -> [ok |-> TRUE, o |-> Seg(Idx(T(p).s, Segs)), p |-> p + 1]
    [] IsLabel(p) -> [ok |-> TRUE, o |-> Imm(0, <<KeyOf(T(p))>>), p |-> p + 1]
    [] OTHER -> NoOp

-----------------------------------------------------------------------------
(* Instructions: [op, z, os, sh] with z the operand size and sh the SHORT    *)
(* keyword.  Bad: no such 8086 instruction.  sup: the assembler knows it.    *)
Inst(op, z, os, sh) == [op |-> op, z |-> z, os |-> os, sh |-> sh]
AllKnown(o) == \A i \in 1..Len(o.sy) : o.sy[i] \in DOMAIN a.lab
Val(o) == W(o.v + FoldLeft(LAMBDA s, k : s + a.lab[k].v, 0, o.sy))
FitImm(o, z) == z = 2 \/ ~AllKnown(o) \/ FitsByte(Val(o))
SupImm(o, z) == z = 2 \/ AllKnown(o)    \* a label defined later is a word
SameSize(x, y) == x.z = 0 \/ y.z = 0 \/ x.z = y.z
SizeOf(x, y) == IF x.z # 0 THEN x.z ELSE y.z
RM(o) == o.t \in {"reg", "mem"}

\* [ok: is there such an instruction, sup: must it be accepted, z: its size]
Judge(op, os, sh) ==
  LET n == Len(os)
      x == os[1]
      y == os[2]
      no == [ok |-> FALSE, sup |-> FALSE, z |-> 0]
      yes(s, z) == [ok |-> TRUE, sup |-> s /\ \A i \in 1..n : os[i].sup, z |-> z]
      z == IF n = 2 THEN SizeOf(x, y) ELSE IF n = 1 THEN x.z ELSE 0
      two == SameSize(x, y) /\ z # 0
  IN CASE op \in Plain -> yes(TRUE, 0)
       [] op = "MOV" ->
            CASE ~two -> no
              [] x.t = "seg" -> IF y.t \in {"reg", "mem"} THEN yes(x.r # 1, 2) ELSE no
              [] y.t = "seg" -> IF x.t \in {"reg", "mem"} THEN yes(TRUE, 2) ELSE no
              [] RM(x) /\ y.t = "imm" -> IF FitImm(y, z) THEN yes(SupImm(y, z), z) ELSE no
              [] RM(x) /\ RM(y) /\ ~(x.t = "mem" /\ y.t = "mem") -> yes(TRUE, z)
              [] OTHER -> no
       [] op \in AluSet ->
            CASE ~two -> no
              [] RM(x) /\ y.t = "imm" -> IF FitImm(y, z) THEN yes(SupImm(y, z), z) ELSE no
              [] RM(x) /\ RM(y) /\ ~(x.t = "mem" /\ y.t = "mem") -> yes(TRUE, z)
              [] OTHER -> no
       [] op = "TEST" ->
            CASE ~two -> no
              [] RM(x) /\ y.t = "imm" -> IF FitImm(y, z) THEN yes(SupImm(y, z), z) ELSE no
              [] RM(x) /\ RM(y) /\ ~(x.t = "mem" /\ y.t = "mem") -> yes(FALSE, z)
              [] OTHER -> no
       [] op = "XCHG" ->
            CASE ~two -> no
              [] x.t = "reg" /\ y.t = "reg" -> yes(x.r = 0 /\ z = 2, z)
              [] x.t = "reg" /\ y.t = "mem" -> yes(TRUE, z)
              [] x.t = "mem" /\ y.t = "reg" -> yes(FALSE, z)
              [] OTHER -> no
       [] op \in RotOps ->
            CASE ~RM(x) \/ x.z = 0 -> no
              [] y.t = "imm" /\ y.sy = <<>> /\ y.v = 1 -> yes(x.t = "reg", x.z)
              [] y.t = "reg" /\ y.z = 1 /\ y.r = 1 -> yes(x.t = "reg", x.z)
              [] OTHER -> no
       [] op = "LEA" -> IF x.t = "reg" /\ x.z = 2 /\ y.t = "mem" THEN yes(TRUE, 2) ELSE no
       [] op \in UnOps -> IF RM(x) /\ x.z # 0 THEN yes(x.t = "reg", x.z) ELSE no
       [] op \in {"INC", "DEC"} -> IF RM(x) /\ x.z # 0 THEN yes(TRUE, x.z) ELSE no
       [] op = "PUSH" -> IF x.t \in {"reg", "mem", "seg"} /\ x.z = 2 THEN yes(TRUE, 2) ELSE no
       [] op = "POP" -> IF x.t \in {"reg", "mem", "seg"} /\ x.z = 2 THEN yes(x.t = "reg" \/ (x.t = "seg" /\ x.r # 1), 2) ELSE no
       [] op = "INT" -> IF x.t = "imm" /\ x.sy = <<>> /\ x.v < 256 THEN yes(TRUE, 0) ELSE no
       [] op = "CALL" -> IF x.t = "imm" THEN yes(TRUE, 0) ELSE IF RM(x) /\ x.z = 2 THEN yes(x.t = "reg", 2) ELSE no
       [] op = "JMP" -> IF x.t = "imm" THEN yes(TRUE, 0) ELSE IF RM(x) /\ x.z = 2 /\ ~sh THEN yes(FALSE, 2) ELSE no
       [] op \in JccAll -> IF x.t = "imm" THEN yes(TRUE, 0) ELSE no

NumOps(op) == IF op \in Plain THEN 0
              ELSE IF op \in AluSet \cup RotOps \cup {"MOV", "TEST", "XCHG", "LEA"} THEN 2 ELSE 1
MayShort(op) == op = "JMP" \/ op \in JccAll

-----------------------------------------------------------------------------
(* The lengths of the encodings a one-pass assembler chooses *)
MLen(o) ==    \* ModRM and displacement
  LET fwd == ~AllKnown(o)
      v == IF fwd THEN 0 ELSE Val(o)
  IN IF o.b = {} \/ fwd THEN 3 ELSE IF v = 0 /\ o.b # {"BP"} THEN 1 ELSE IF IsShort(v) THEN 2 ELSE 3
PLen(o) == IF o.sg >= 0 THEN 1 ELSE 0
Acc(o) == o.t = "reg" /\ o.r = 0
InstLen(i, addr) ==
  LET x == i.os[1]
      y == i.os[2]
      small(o) == AllKnown(o) /\ IsShort(Val(o))
      mem == IF i.os[1].t = "mem" THEN x ELSE y
      pre == IF Len(i.os) = 0 THEN 0 ELSE PLen(x) + (IF Len(i.os) = 2 THEN PLen(y) ELSE 0)
      near == AllKnown(x) /\ IsShort(Val(x) - (addr + 2))
  IN pre +
     CASE i.op \in Plain -> 1
       [] i.op = "INT" -> 2
       [] i.op = "CALL" -> IF x.t = "imm" THEN 3 ELSE IF x.t = "reg" THEN 2 ELSE 1 + MLen(x)
       [] i.op = "JMP" -> IF x.t = "imm" THEN (IF i.sh \/ near THEN 2 ELSE 3) ELSE IF x.t = "reg" THEN 2 ELSE 1 + MLen(x)
       [] i.op \in JccAll -> 2
       [] i.op \in {"PUSH", "POP"} -> IF x.t = "mem" THEN 1 + MLen(x) ELSE 1
       [] i.op \in {"INC", "DEC"} -> IF x.t = "mem" THEN 1 + MLen(x) ELSE 3 - i.z
       [] i.op \in UnOps \cup RotOps -> IF x.t = "mem" THEN 1 + MLen(x) ELSE 2
       [] i.op = "LEA" -> 1 + MLen(y)
       [] i.op = "XCHG" -> IF x.t = "mem" \/ y.t = "mem" THEN 1 + MLen(mem) ELSE IF i.z = 2 /\ (Acc(x) \/ Acc(y)) THEN 1 ELSE 2
       [] i.op = "MOV" ->
            CASE y.t = "imm" -> IF x.t = "mem" THEN 1 + MLen(x) + i.z ELSE 1 + i.z
              [] x.t = "mem" \/ y.t = "mem" -> IF mem.b = {} /\ (Acc(x) \/ Acc(y)) THEN 3 ELSE 1 + MLen(mem)
              [] OTHER -> 2
       [] OTHER ->   \* ALU, TEST
            CASE y.t = "imm" ->
                   IF Acc(x) THEN 1 + i.z
                   ELSE 1 + (IF x.t = "mem" THEN MLen(x) ELSE 1) + (IF i.op # "TEST" /\ small(y) THEN 1 ELSE i.z)
              [] x.t = "mem" \/ y.t = "mem" -> 1 + MLen(mem)
              [] OTHER -> 2

-----------------------------------------------------------------------------
(* The 8086 decoder: the instruction at out[q], addr its address *)
OutB(q) == IF q <= Len(P.out) THEN P.out[q] ELSE 0
OutW(q) == OutB(q) + 256 * OutB(q + 1)
RmBase == <<{"BX", "SI"}, {"BX", "DI"}, {"BP", "SI"}, {"BP", "DI"}, {"SI"}, {"DI"}, {"BP"}, {"BX"}>>
RECURSIVE Decode(_, _, _, _)
Decode(q, addr, sg, np) ==
  LET op == OutB(q)
      z == IF op % 2 = 1 THEN 2 ELSE 1
      m == OutB(q + 1)
      mod == m \div 64
      rm == m % 8
      reg == (m \div 8) % 8
      disp == CASE mod = 1 -> W(SX8(OutB(q + 2)))
                [] mod = 2 \/ (mod = 0 /\ rm = 6) -> OutW(q + 2)
                [] OTHER -> 0
      mlen == CASE mod = 1 -> 2 [] mod = 2 \/ (mod = 0 /\ rm = 6) -> 3 [] OTHER -> 1
      E(sz) == IF mod = 3 THEN Reg(rm, sz) ELSE Mem(IF mod = 0 /\ rm = 6 THEN {} ELSE RmBase[rm + 1], disp, <<>>, sg, sz, TRUE)
      G(sz) == Reg(reg, sz)
      R(nm, sz, os, len) == [ok |-> TRUE, i |-> Inst(nm, sz, os, FALSE), len |-> len + np, np |-> np]
      ImmAt(k, sz) == IF sz = 2 THEN Imm(OutW(k), <<>>) ELSE Imm(OutB(k), <<>>)
      none == [ok |-> FALSE, i |-> Inst("", 0, <<>>, FALSE), len |-> 1, np |-> np]
      Rel(k, len) == Imm(W(addr + np + len + k), <<>>)
      Moffs == Mem({}, OutW(q + 1), <<>>, sg, z, TRUE)
  IN
  CASE op \in {38, 46, 54, 62} -> IF sg >= 0 THEN none ELSE Decode(q + 1, addr, (op - 38) \div 8, np + 1)
    [] op < 64 /\ op % 8 < 4 ->
         R(AluOps[op \div 8 + 1], z, IF (op \div 2) % 2 = 0 THEN <<E(z), G(z)>> ELSE <<G(z), E(z)>>, 1 + mlen)
    [] op < 64 /\ op % 8 \in {4, 5} -> R(AluOps[op \div 8 + 1], z, <<Reg(0, z), ImmAt(q + 1, z)>>, 1 + z)
    [] op \in {6, 14, 22, 30} -> R("PUSH", 2, <<Seg(op \div 8)>>, 1)
    [] op \in {7, 15, 23, 31} -> R("POP", 2, <<Seg(op \div 8)>>, 1)
    [] op \in 64..71 -> R("INC", 2, <<Reg(op - 64, 2)>>, 1)
    [] op \in 72..79 -> R("DEC", 2, <<Reg(op - 72, 2)>>, 1)
    [] op \in 80..87 -> R("PUSH", 2, <<Reg(op - 80, 2)>>, 1)
    [] op \in 88..95 -> R("POP", 2, <<Reg(op - 88, 2)>>, 1)
    [] op \in 112..127 -> R(JccNames[op - 111][1], 0, <<Rel(SX8(OutB(q + 1)), 2)>>, 2)
    [] op \in {128, 130} -> R(AluOps[reg + 1], 1, <<E(1), Imm(OutB(q + 1 + mlen), <<>>)>>, 2 + mlen)
    [] op = 129 -> R(AluOps[reg + 1], 2, <<E(2), Imm(OutW(q + 1 + mlen), <<>>)>>, 3 + mlen)
    [] op = 131 -> R(AluOps[reg + 1], 2, <<E(2), Imm(W(SX8(OutB(q + 1 + mlen))), <<>>)>>, 2 + mlen)
    [] op \in {132, 133} -> R("TEST", z, <<E(z), G(z)>>, 1 + mlen)
    [] op \in {134, 135} -> R("XCHG", z, <<E(z), G(z)>>, 1 + mlen)
    [] op \in {136, 137} -> R("MOV", z, <<E(z), G(z)>>, 1 + mlen)
    [] op \in {138, 139} -> R("MOV", z, <<G(z), E(z)>>, 1 + mlen)
    [] op = 140 /\ reg < 4 -> R("MOV", 2, <<E(2), Seg(reg)>>, 1 + mlen)
    [] op = 141 /\ mod # 3 -> R("LEA", 2, <<G(2), E(2)>>, 1 + mlen)
    [] op = 142 /\ reg < 4 -> R("MOV", 2, <<Seg(reg), E(2)>>, 1 + mlen)
    [] op = 143 /\ reg = 0 -> R("POP", 2, <<E(2)>>, 1 + mlen)
    [] op \in 144..151 -> R("XCHG", 2, <<Reg(0, 2), Reg(op - 144, 2)>>, 1)
    [] op = 152 -> R("CBW", 0, <<>>, 1)
    [] op = 153 -> R("CWD", 0, <<>>, 1)
    [] op \in {160, 161} -> R("MOV", z, <<Reg(0, z), Moffs>>, 3)
    [] op \in {162, 163} -> R("MOV", z, <<Moffs, Reg(0, z)>>, 3)
    [] op = 164 -> R("MOVSB", 0, <<>>, 1)
    [] op = 166 -> R("CMPSB", 0, <<>>, 1)
    [] op \in {168, 169} -> R("TEST", z, <<Reg(0, z), ImmAt(q + 1, z)>>, 1 + z)
    [] op = 170 -> R("STOSB", 0, <<>>, 1)
    [] op = 171 -> R("STOSW", 0, <<>>, 1)
    [] op = 172 -> R("LODSB", 0, <<>>, 1)
    [] op \in 176..183 -> R("MOV", 1, <<Reg(op - 176, 1), ImmAt(q + 1, 1)>>, 2)
    [] op \in 184..191 -> R("MOV", 2, <<Reg(op - 184, 2), ImmAt(q + 1, 2)>>, 3)
    [] op = 195 -> R("RET", 0, <<>>, 1)
    [] op \in {198, 199} /\ reg = 0 -> R("MOV", z, <<E(z), ImmAt(q + 1 + mlen, z)>>, 1 + mlen + z)
    [] op = 205 -> R("INT", 0, <<Imm(OutB(q + 1), <<>>)>>, 2)
    [] op \in 208..211 /\ reg \in {4, 5, 7} ->
         R(CASE reg = 4 -> "SHL" [] reg = 5 -> "SHR" [] reg = 7 -> "SAR", z, <<E(z), IF op < 210 THEN Imm(1, <<>>) ELSE Reg(1, 1)>>, 1 + mlen)
    [] op = 232 -> R("CALL", 0, <<Rel(OutW(q + 1), 3)>>, 3)
    [] op = 233 -> R("JMP", 0, <<Rel(OutW(q + 1), 3)>>, 3)
    [] op = 235 -> R("JMP", 0, <<Rel(SX8(OutB(q + 1)), 2)>>, 2)
    [] op = 243 -> R("REP", 0, <<>>, 1)
    [] op \in {246, 247} /\ reg = 0 -> R("TEST", z, <<E(z), ImmAt(q + 1 + mlen, z)>>, 1 + mlen + z)
    [] op \in {246, 247} /\ reg > 1 -> R(<<"NOT", "NEG", "MUL", "IMUL", "DIV", "IDIV">>[reg - 1], z, <<E(z)>>, 1 + mlen)
    [] op = 248 -> R("CLC", 0, <<>>, 1)
    [] op = 249 -> R("STC", 0, <<>>, 1)
    [] op = 250 -> R("CLI", 0, <<>>, 1)
    [] op = 251 -> R("STI", 0, <<>>, 1)
    [] op \in {254, 255} /\ reg < 2 -> R(IF reg = 0 THEN "INC" ELSE "DEC", z, <<E(z)>>, 1 + mlen)
    [] op = 255 /\ reg = 2 -> R("CALL", 2, <<E(2)>>, 1 + mlen)
    [] op = 255 /\ reg = 4 -> R("JMP", 2, <<E(2)>>, 1 + mlen)
    [] op = 255 /\ reg = 6 -> R("PUSH", 2, <<E(2)>>, 1 + mlen)
    [] OTHER -> none

(* Is the decoded operand d the source operand s?  Label values are checked later. *)
DefSeg(b) == IF "BP" \in b THEN 2 ELSE 3
EffSeg(o) == IF o.sg >= 0 THEN o.sg ELSE DefSeg(o.b)
SameOp(s, d, z) ==
  /\ s.t = d.t
  /\ CASE s.t \in {"reg", "seg"} -> s.r = d.r /\ (s.t = "seg" \/ s.z = d.z)
       [] s.t = "mem" -> s.b = d.b /\ EffSeg(s) = EffSeg(d) /\ (s.sy # <<>> \/ s.v = d.v)
       [] s.t = "imm" -> s.sy # <<>> \/ (IF z = 1 THEN s.v % 256 = d.v % 256 ELSE s.v = d.v)
SameOps(s, d, z) == Len(s) = Len(d) /\ \A i \in 1..Len(s) : SameOp(s[i], d[i], z)
CanonOp(nm) == IF nm \in JccAll THEN JccNames[Jcc(nm) + 1][1] ELSE nm
Swap(os) == IF Len(os) = 2 THEN <<os[2], os[1]>> ELSE os
SameInst(s, d) ==
  /\ CanonOp(s.op) = d.op /\ s.z = d.z
  /\ \/ SameOps(s.os, d.os, s.z)
     \/ s.op \in {"XCHG", "TEST"} /\ s.os[2].t # "imm" /\ SameOps(s.os, Swap(d.os), s.z)
Aligned(s, d) == IF SameOps(s.os, d.os, s.z) THEN d.os ELSE Swap(d.os)

-----------------------------------------------------------------------------
(* What remains to be checked of a reference: on line ln, the labels sy plus *)
(* add must be got modulo m (got = -1: not known), and within reach of a     *)
(* short jump that ends at r8 (-1: no short jump); fj: a conditional jump to *)
(* a label not yet defined                                                   *)
Obl(ln, o, got, m, r8, fj) == [ln |-> ln, sy |-> o.sy, add |-> o.v, got |-> got, m |-> m, r8 |-> r8, fj |-> fj]

Init ==
  /\ pid \in 1..Len(Cases)
  /\ tk = LexAll(P.b, P.c)
  /\ a = [p |-> 1, addr |-> 0, q |-> 1, scope |-> "?", bss |-> FALSE, opt |-> {}, n |-> 0,
          lab |-> [x \in {} |-> 0], ob |-> <<>>]
  /\ res = "run"

Verdict(v, w) == PrintT(<<"VERDICT", pid, v, w>>) /\ res' = v
Accepted == P.rc = 0

\* the lines an error may be reported for before the statement at fault
Resolved(o) == \A i \in 1..Len(o.sy) : o.sy[i] \in DOMAIN a.lab
Gone(o) == \E i \in 1..Len(o.sy) : o.sy[i] \notin DOMAIN a.lab /\ o.sy[i][1] \notin {"", a.scope}
Sum(o) == W(o.add + FoldLeft(LAMBDA s, k : s + a.lab[k].v, 0, o.sy))
Far(o) == Resolved(o) /\ o.r8 >= 0 /\ ~IsShort(Sum(o) - o.r8)
EarlyLines == {a.ob[i].ln : i \in {j \in 1..Len(a.ob) : Gone(a.ob[j]) \/ Far(a.ob[j])}}
EndLines == {a.ob[i].ln : i \in {j \in 1..Len(a.ob) : ~Resolved(a.ob[j]) \/ Far(a.ob[j])}}
\* a conditional jump forwards that does not reach its label but has the right low byte: kept apart, as it is a known finding
Wrapped == {i \in 1..Len(a.ob) : a.ob[i].fj /\ Far(a.ob[i]) /\ Sum(a.ob[i]) % 256 = a.ob[i].got % 256}
Wrong == {i \in 1..Len(a.ob) \ Wrapped : a.ob[i].got >= 0 /\ Sum(a.ob[i]) % a.ob[i].m # a.ob[i].got}
Lost == {i \in 1..Len(a.ob) \ Wrapped : ~Resolved(a.ob[i]) \/ Far(a.ob[i])}

Rejected(lines, why) ==
  IF P.rc < 0 THEN Verdict("mismatch", <<"crash", P.rc>>)
  ELSE IF ~P.kept THEN Verdict("mismatch", <<"output written by a rejected source">>)
  ELSE IF P.eline \notin lines THEN Verdict("mismatch", <<"line", P.eline, lines, why>>)
  ELSE Verdict("ok", <<"rejected", why>>)

BadStmt(why) ==
  LET ln == T(a.p).ln
      z == tk[Len(tk)]
      look == IF z.k = "bad" /\ Len(tk) <= a.p + 12 THEN {z.ln} ELSE {}     \* the token read ahead
  IN /\ UNCHANGED <<pid, tk, a>>
     /\ IF Accepted THEN Verdict("mismatch", <<"accepted", ln, why>>)
        ELSE Rejected({ln} \cup look \cup EarlyLines \cup a.opt, why)

\* a statement that puts n bytes, after which parsing goes on at p
Put(n, p, obs, sup) ==
  IF n > 0 /\ a.bss THEN BadStmt("code after a reservation")
  ELSE /\ a' = [a EXCEPT !.p = p, !.addr = W(@ + n), !.q = @ + n, !.ob = @ \o obs, !.opt = IF sup THEN @ ELSE @ \cup {T(a.p).ln}, !.n = @ + 1]
       /\ UNCHANGED <<pid, tk, res>>

\* Define a name; glob: a global label, which ends the scope of the local ones
Define(t, k, v, p, glob) ==
  IF Known(t) THEN BadStmt("duplicate name")
  ELSE /\ a' = [a EXCEPT !.lab = (KeyOf(t) :> [k |-> k, v |-> v]) @@ @, !.p = p, !.n = @ + 1,
                         !.scope = IF glob THEN t.s ELSE @]
       /\ UNCHANGED <<pid, tk, res>>

\* DB and DW: the list of items from p; [ok, p, by: bytes (-1: part of a label), obs]
RECURSIVE Items(_, _, _, _)
Items(p, sz, by, obs) ==
  LET ln == T(a.p).ln
      at == a.q + Len(by)
      word(v) == <<v % 256, v \div 256>>
      more(q, b1, o1) == IF IsOp(q, ",") THEN Items(q + 1, sz, b1, o1) ELSE [ok |-> TRUE, p |-> q, by |-> b1, obs |-> o1]
      bad == [ok |-> FALSE, p |-> p, by |-> by, obs |-> obs]
  IN CASE T(p).k = "str" ->
            more(p + 1, by \o T(p).v \o (IF sz = 2 /\ Len(T(p).v) % 2 = 1 THEN <<0>> ELSE <<>>), obs)
       [] T(p).k = "num" \/ IsEqu(p) \/ IsOp(p, "+") \/ IsOp(p, "-") \/ IsOp(p, "~") ->
            LET e == Expr(p) IN
            IF ~e.ok \/ (sz = 1 /\ ~FitsByte(e.v)) THEN bad
            ELSE more(e.p, by \o (IF sz = 1 THEN <<e.v % 256>> ELSE word(e.v)), obs)
       [] IsLabel(p) /\ sz = 2 ->
            LET o == Imm(0, <<KeyOf(T(p))>>) IN
            more(p + 1, by \o <<-1, -1>>, Append(obs, Obl(ln, o, IF Accepted THEN OutW(at) ELSE -1, 65536, -1, FALSE)))
       [] OTHER -> bad

Data(sz) ==
  LET r == Items(a.p + 1, sz, <<>>, <<>>)
      diff == {i \in 1..Len(r.by) : r.by[i] >= 0 /\ (a.q + i - 1 > Len(P.out) \/ OutB(a.q + i - 1) # r.by[i])}
  IN IF ~r.ok THEN BadStmt("data")
     ELSE IF Accepted /\ ~(a.bss /\ r.by # <<>>) /\ diff # {}
          THEN LET i == CHOOSE i \in diff : \A j \in diff : i <= j IN
               UNCHANGED <<pid, tk, a>> /\ Verdict("mismatch", <<"data", T(a.p).ln, i, r.by[i], OutB(a.q + i - 1)>>)
     ELSE Put(Len(r.by), r.p, r.obs, TRUE)

Instruction ==
  LET op == T(a.p).s
      ln == T(a.p).ln
      sh == MayShort(op) /\ IsNam(a.p + 1, "SHORT")
      p1 == IF sh THEN a.p + 2 ELSE a.p + 1
      n == NumOps(op)
      o1 == IF n > 0 THEN Operand(p1) ELSE NoOp
      o2 == IF n > 1 /\ o1.ok /\ IsOp(o1.p, ",") THEN Operand(o1.p + 1) ELSE NoOp
      syn == n = 0 \/ (o1.ok /\ (n = 1 \/ o2.ok))
      os == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<o1.o>> ELSE <<o1.o, o2.o>>
      pe == IF n = 0 THEN p1 ELSE IF n = 1 THEN o1.p ELSE o2.p
      j == Judge(op, os, sh)
      s == Inst(op, j.z, os, sh)
      rel == n = 1 /\ os[1].t = "imm" /\ op # "INT"
      short == rel /\ (op \in JccAll \/ sh)
      d == Decode(a.q, a.addr, -1, 0)
      len == IF Accepted THEN d.len ELSE InstLen(s, a.addr)
      ends == W(a.addr + len)
      ds == Aligned(s, d.i)
      obs == FoldLeft(LAMBDA l, i : IF os[i].sy = <<>> THEN l
                                    ELSE Append(l, Obl(ln, os[i], IF Accepted THEN ds[i].v ELSE -1,
                                                       IF os[i].t = "imm" /\ j.z = 1 THEN 256 ELSE 65536, IF short THEN ends ELSE -1, op \in JccAll /\ ~AllKnown(os[i]))),
                      <<>>, [i \in 1..n |-> i])
  IN CASE ~syn -> BadStmt("syntax")
       [] ~j.ok -> BadStmt("no such instruction")
       [] short /\ os[1].sy = <<>> /\ ~IsShort(os[1].v - (a.addr + 2)) -> BadStmt("jump out of range")
       [] short /\ AllKnown(os[1]) /\ ~IsShort(Val(os[1]) - (a.addr + 2)) -> BadStmt("jump out of range")
       [] a.bss -> BadStmt("code after a reservation")
       [] Accepted /\ (~d.ok \/ a.q + len - 1 > Len(P.out) \/ ~SameInst(s, d.i)) ->
            /\ UNCHANGED <<pid, tk, a>>
            /\ Verdict("mismatch", <<"instruction", ln, op, [k \in 1..8 |-> OutB(a.q + k - 1)], d.i.op, d.ok>>)
       [] OTHER -> Put(len, pe, obs, j.sup)

Directive ==
  LET nm == T(a.p).s
      e == Expr(a.p + 1)
      sz == IF nm = "RESB" THEN 1 ELSE 2
  IN CASE nm = "DB" -> Data(1)
       [] nm = "DW" -> Data(2)
       [] nm = "CPU" -> IF e.ok /\ e.v = 8086 THEN Put(0, e.p, <<>>, TRUE) ELSE BadStmt("cpu")
       [] nm = "ORG" -> IF e.ok THEN /\ a' = [a EXCEPT !.p = e.p, !.addr = e.v, !.n = @ + 1]
                                     /\ UNCHANGED <<pid, tk, res>>
                        ELSE BadStmt("org")
       [] nm \in {"RESB", "RESW"} ->
            IF e.ok /\ e.v * sz < 32768 THEN /\ a' = [a EXCEPT !.p = e.p, !.addr = W(@ + e.v * sz), !.bss = TRUE, !.n = @ + 1]
                                             /\ UNCHANGED <<pid, tk, res>>
            ELSE BadStmt("reservation")
       [] OTHER -> BadStmt("directive")

Finish ==
  /\ UNCHANGED <<pid, tk, a>>
  /\ IF Accepted
     THEN IF Lost # {} THEN LET i == CHOOSE i \in Lost : TRUE IN
               Verdict("mismatch", <<"accepted", a.ob[i].ln, IF Resolved(a.ob[i]) THEN "out of reach" ELSE "undefined">>)
          ELSE IF Wrong # {} THEN LET i == CHOOSE i \in Wrong : TRUE IN
               Verdict("mismatch", <<"reference", a.ob[i].ln, Sum(a.ob[i]), a.ob[i].got>>)
          ELSE IF Len(P.out) # a.q - 1 THEN Verdict("mismatch", <<"length", a.q - 1, Len(P.out)>>)
          ELSE IF Wrapped # {} THEN Verdict("mismatch", <<"wrapped", a.ob[CHOOSE i \in Wrapped : TRUE].ln>>)
          ELSE Verdict("ok", <<"assembled", a.n, Len(P.out), Len(a.ob)>>)
     ELSE IF EndLines # {} THEN Rejected(EndLines \cup a.opt, "undefined or out of reach")
     ELSE IF P.rc < 0 THEN Verdict("mismatch", <<"crash", P.rc>>)
     ELSE IF P.big \/ P.eline \in a.opt THEN Verdict("ok", <<"unsupported", a.n>>)
     ELSE Verdict("mismatch", <<"valid source rejected", P.eline>>)

Next ==
  /\ res = "run"
  /\ CASE T(a.p).k = "eof" -> Finish
       [] T(a.p).k = "bad" -> BadStmt(T(a.p).s)
       [] T(a.p).k = "id" /\ IsOp(a.p + 1, ":") -> Define(T(a.p), "lab", a.addr, a.p + 2, ~Local(T(a.p)))
       [] T(a.p).k = "id" /\ IsNam(a.p + 1, "EQU") ->
            LET e == Expr(a.p + 2) IN IF ~e.ok THEN BadStmt("equ") ELSE Define(T(a.p), "equ", e.v, e.p, FALSE)
       [] T(a.p).k = "nam" /\ T(a.p).s \in Directives -> Directive
       [] T(a.p).k = "nam" /\ T(a.p).s \in Insts -> Instruction
       [] OTHER -> BadStmt("no statement")

Spec == Init /\ [][Next]_vars
View == <<pid, a.p, res>>
TypeOK == a.addr \in 0..65535 /\ a.q >= 1 /\ \A k \in DOMAIN a.lab : a.lab[k].v \in 0..65535
=============================================================================
