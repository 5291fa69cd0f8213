------------------------------- MODULE I8086 -------------------------------
(***************************************************************************)
(* The machine simulated by sim86: an 8086 with the registers, the flags   *)
(* C Z S O, 1 MB of memory, and the DOS services INT 20h and INT 21h       *)
(* AH = 02 3C 3D 3E 3F 40 4C, running one COM program.                     *)
(*                                                                         *)
(* Exec gives the effect of the instruction at CS:IP.  A batch of programs *)
(* is read from JSON; each behaviour is one program.  Each program carries *)
(* the trace recorded from the real simulator (registers after every       *)
(* instruction), its exit code, its console bytes, the files it left and   *)
(* the memory it ended with.  A behaviour reaches verdict "ok" iff the     *)
(* recorded run is a run of this machine.  What the 8086 leaves undefined  *)
(* (some flags, handle numbers, error codes) is taken from the recording.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise

Progs == ndJsonDeserialize(IOEnv.I86_PROGS)

VARIABLES
  pid,   \* which program
  n,     \* instructions executed
  c,     \* processor and memory
  dos,   \* files, handles, console
  res    \* verdict

vars == <<pid, n, c, dos, res>>
P == Progs[pid]

-----------------------------------------------------------------------------
(* Words, bytes *)
W(x) == x % 65536
B(x) == x % 256
Lo(x) == x % 256
Hi(x) == (x \div 256) % 256
SX8(x) == LET y == x % 256 IN IF y >= 128 THEN y - 256 ELSE y
SX16(x) == LET y == x % 65536 IN IF y >= 32768 THEN y - 65536 ELSE y
Bit(x, b) == (x \div b) % 2
Bool(b) == IF b THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Undef == 2     \* an undefined flag

AX == 1  CX == 2  DX == 3  BX == 4  SP == 5  BP == 6  SI == 7  DI == 8
ES == 1  CS == 2  SS == 3  DS == 4

-----------------------------------------------------------------------------
(* Memory: the loaded program and what was written since *)
Lin(sg, off) == (sg * 16 + W(off)) % 1048576

TailByte(i) == LET t == P.tail IN IF i <= Len(t) THEN t[i] ELSE IF i = Len(t) + 1 THEN 13 ELSE 0
Base(a) ==
  LET o == a - P.seg * 16 IN
  IF o < 0 \/ o >= 256 + Len(P.img) THEN 0
  ELSE IF o >= 256 THEN P.img[o - 255]
  ELSE CASE o = 0 -> 205 [] o = 1 -> 32
         [] o = 2 -> Lo(P.top) [] o = 3 -> Hi(P.top)
         [] o = 128 -> Len(P.tail)
         [] o > 128 -> TailByte(o - 128)
         [] OTHER -> 0
Mem(m, a) == IF a \in DOMAIN m.w THEN m.w[a] ELSE Base(a)
Rd8(m, sg, off) == Mem(m, Lin(m.s[sg], off))
Rd16(m, sg, off) == Rd8(m, sg, off) + 256 * Rd8(m, sg, off + 1)
Wr8(m, sg, off, v) == [m EXCEPT !.w = (Lin(m.s[sg], off) :> B(v)) @@ @]
Wr16(m, sg, off, v) == Wr8(Wr8(m, sg, off, Lo(v)), sg, off + 1, Hi(v))
Rd(m, sg, off, d) == IF d = 1 THEN Rd16(m, sg, off) ELSE Rd8(m, sg, off)
Wr(m, sg, off, v, d) == IF d = 1 THEN Wr16(m, sg, off, W(v)) ELSE Wr8(m, sg, off, v)
Code8(m, ip) == Rd8(m, CS, ip)
Code16(m, ip) == Rd16(m, CS, ip)

(* Registers: i is the encoding 0..7, d = 1 for words *)
Get(m, i, d) == IF d = 1 THEN m.r[i + 1] ELSE IF i < 4 THEN Lo(m.r[i + 1]) ELSE Hi(m.r[i - 3])
Set(m, i, d, v) ==
  IF d = 1 THEN [m EXCEPT !.r[i + 1] = W(v)]
  ELSE IF i < 4 THEN [m EXCEPT !.r[i + 1] = @ - Lo(@) + B(v)]
  ELSE [m EXCEPT !.r[i - 3] = Lo(@) + 256 * B(v)]

(* Flags are <<O, S, Z, C>> *)
FO(m) == m.f[1]  FS(m) == m.f[2]  FZ(m) == m.f[3]  FC(m) == m.f[4]

Push(m, v) == LET m1 == [m EXCEPT !.r[SP] = W(@ - 2)] IN Wr16(m1, SS, m1.r[SP], W(v))
Top(m) == Rd16(m, SS, m.r[SP])
Drop(m) == [m EXCEPT !.r[SP] = W(@ + 2)]

-----------------------------------------------------------------------------
(* Operands *)
(* m is the processor, ip the address of the ModRM byte, sg the override or 0 *)
ModRM(m, ip, sg) ==
  LET b == Code8(m, ip)
      mod == b \div 64
      rm == b % 8
      r == m.r
      disp == CASE mod = 1 -> SX8(Code8(m, ip + 1))
                [] mod = 2 \/ (mod = 0 /\ rm = 6) -> Code16(m, ip + 1)
                [] OTHER -> 0
      len == CASE mod = 1 -> 2 [] mod = 2 \/ (mod = 0 /\ rm = 6) -> 3 [] OTHER -> 1
      base == CASE rm = 0 -> r[BX] + r[SI]
                [] rm = 1 -> r[BX] + r[DI]
                [] rm = 2 -> r[BP] + r[SI]
                [] rm = 3 -> r[BP] + r[DI]
                [] rm = 4 -> r[SI]
                [] rm = 5 -> r[DI]
                [] rm = 6 -> IF mod = 0 THEN 0 ELSE r[BP]
                [] rm = 7 -> r[BX]
      dseg == IF rm \in {2, 3} \/ (rm = 6 /\ mod # 0) THEN SS ELSE DS
  IN [mod |-> mod, reg |-> (b \div 8) % 8, rm |-> rm, ea |-> W(base + disp),
      sg |-> IF sg = 0 THEN dseg ELSE sg, ip |-> W(ip + len)]
GetRM(m, o, d) == IF o.mod = 3 THEN Get(m, o.rm, d) ELSE Rd(m, o.sg, o.ea, d)
SetRM(m, o, d, v) == IF o.mod = 3 THEN Set(m, o.rm, d, v) ELSE Wr(m, o.sg, o.ea, v, d)

-----------------------------------------------------------------------------
(* Arithmetic; d = 1 for words.  Results are [v, f] *)
Max(d) == IF d = 1 THEN 65536 ELSE 256
Sgn(x, d) == IF d = 1 THEN Bit(x, 32768) ELSE Bit(x, 128)
ADD == 0 OR == 1 ADC == 2 SBB == 3 AND == 4 SUB == 5 XOR == 6 CMP == 7
Alu(op, a, b, cin, d) ==
  IF op \in {ADD, ADC} THEN
    LET t == a + b + (IF op = ADC THEN cin ELSE 0)
        v == t % Max(d)
    IN [v |-> v, f |-> <<Bool(Sgn(a, d) = Sgn(b, d) /\ Sgn(v, d) # Sgn(a, d)), Sgn(v, d), Bool(v = 0), Bool(t >= Max(d))>>]
  ELSE IF op \in {SUB, SBB, CMP} THEN
    LET t == a - b - (IF op = SBB THEN cin ELSE 0)
        v == t % Max(d)
    IN [v |-> v, f |-> <<Bool(Sgn(a, d) # Sgn(b, d) /\ Sgn(v, d) # Sgn(a, d)), Sgn(v, d), Bool(v = 0), Bool(t < 0)>>]
  ELSE
    LET v == CASE op = AND -> a & b [] op = OR -> a | b [] op = XOR -> a ^^ b
    IN [v |-> v, f |-> <<0, Sgn(v, d), Bool(v = 0), 0>>]

Mul(a, b) ==   \* unsigned 16 x 16 -> <<high, low>>
  LET l == Lo(a) * b                        \* < 2^24
      h == Hi(a) * b
      s == (h % 256) * 256 + l              \* < 2^25
  IN <<W(h \div 256 + s \div 65536), W(s)>>
IMul(a, b) ==
  LET p == Mul(a, b)
      h1 == IF a >= 32768 THEN p[1] - b ELSE p[1]
      h2 == IF b >= 32768 THEN h1 - a ELSE h1
  IN <<W(h2), p[2]>>

(* Shifts of a word by k places; OF is defined for single shifts only *)
ShiftOp(kind, v, k) ==
  CASE kind = 4 ->   \* SHL
         LET r == IF k > 15 THEN 0 ELSE W(Mul(v, P2[k + 1])[2])
             cf == IF k > 16 THEN 0 ELSE IF k = 16 THEN v % 2 ELSE Bit(v, P2[16 - k + 1])
         IN [v |-> r, c |-> cf, o |-> Bool(Sgn(r, 1) # Sgn(v, 1))]
    [] kind = 5 ->   \* SHR
         LET r == IF k > 15 THEN 0 ELSE v \div P2[k + 1]
             cf == IF k > 16 THEN 0 ELSE Bit(v, P2[k])
         IN [v |-> r, c |-> cf, o |-> Sgn(v, 1)]
    [] kind = 7 ->   \* SAR
         LET s == SX16(v)
             r == IF k > 15 THEN (IF s < 0 THEN -1 ELSE 0) ELSE s \div P2[k + 1]
             cf == IF k > 15 THEN Bool(s < 0) ELSE Bit(v, P2[k])
         IN [v |-> W(r), c |-> cf, o |-> 0]
Shift(m, o, k, single) ==
  LET x == GetRM(m, o, 1)
      q == ShiftOp(o.reg, x, k)
      m1 == [SetRM(m, o, 1, q.v) EXCEPT !.ip = o.ip]
  IN IF k = 0 THEN [m EXCEPT !.ip = o.ip]
     ELSE [m1 EXCEPT !.f = <<IF single THEN q.o ELSE Undef, Sgn(q.v, 1), Bool(q.v = 0), q.c>>]

(* Condition codes *)
Cond(m, cc) ==
  LET t == CASE cc \div 2 = 0 -> FO(m) = 1
             [] cc \div 2 = 1 -> FC(m) = 1
             [] cc \div 2 = 2 -> FZ(m) = 1
             [] cc \div 2 = 3 -> FC(m) = 1 \/ FZ(m) = 1
             [] cc \div 2 = 4 -> FS(m) = 1
             [] cc \div 2 = 6 -> FS(m) # FO(m)
             [] cc \div 2 = 7 -> FZ(m) = 1 \/ FS(m) # FO(m)
  IN IF cc % 2 = 0 THEN t ELSE ~t

-----------------------------------------------------------------------------
(* String instructions (the direction flag is always clear) *)
RECURSIVE Movs(_, _, _), Stos(_, _, _), Cmps(_, _), Scas(_)
Inc(m, i, k) == [m EXCEPT !.r[i] = W(@ + k)]
Movs(m, sg, d) ==
  IF m.r[CX] = 0 THEN m
  ELSE LET m1 == Wr(m, ES, m.r[DI], Rd(m, sg, m.r[SI], d), d)
       IN Movs(Inc(Inc(Inc(m1, CX, -1), SI, d + 1), DI, d + 1), sg, d)
Stos(m, d, k) ==
  IF k = 0 THEN m
  ELSE Stos(Inc(Wr(m, ES, m.r[DI], m.r[AX], d), DI, d + 1), d, k - 1)
Cmps(m, sg) ==
  IF m.r[CX] = 0 THEN m
  ELSE LET q == Alu(CMP, Rd8(m, sg, m.r[SI]), Rd8(m, ES, m.r[DI]), 0, 0)
           m1 == [Inc(Inc(Inc(m, CX, -1), SI, 1), DI, 1) EXCEPT !.f = q.f]
       IN IF q.v # 0 THEN m1 ELSE Cmps(m1, sg)
Scas(m) ==
  IF m.r[CX] = 0 THEN m
  ELSE LET q == Alu(CMP, Lo(m.r[AX]), Rd8(m, ES, m.r[DI]), 0, 0)
           m1 == [Inc(Inc(m, CX, -1), DI, 1) EXCEPT !.f = q.f]
       IN IF q.v = 0 THEN m1 ELSE Scas(m1)

-----------------------------------------------------------------------------
(* DOS.  dos = [fs |-> files by name, hs |-> open handles, con |-> console] *)
RECURSIVE Asciiz(_, _, _)
Asciiz(m, off, k) ==   \* at most 128 bytes, <<-1>> if longer
  IF k = 0 THEN <<-1>> ELSE LET b == Rd8(m, DS, off) IN IF b = 0 THEN <<>> ELSE <<b>> \o Asciiz(m, off + 1, k - 1)
Bytes(m, off, k) == <<>> \o [i \in 1..k |-> Rd8(m, DS, off + i - 1)]
(* transfers that wrap around the segment are outside this model *)
Place(m, off, s) ==
  LET a0 == Lin(m.s[DS], off) IN
  [m EXCEPT !.w = [a \in {(a0 + i) % 1048576 : i \in 0..(Len(s) - 1)} |-> s[((a - a0) % 1048576) + 1]] @@ @]

Carry(m, b) == [m EXCEPT !.f[4] = Bool(b)]
(* a failure sets carry and an error code of the implementation's choice *)
DosFail(m, d, o) == [c |-> Carry([m EXCEPT !.r[AX] = IF o.r[AX] \in 1..255 THEN o.r[AX] ELSE 1], TRUE), d |-> d, st |-> "run"]
DosOk(m, d, v) == [c |-> Carry([m EXCEPT !.r[AX] = v], FALSE), d |-> d, st |-> "run"]
IsOpen(d, h) == h \in DOMAIN d.hs
Overwrite(s, pos, t) ==   \* t written over s at pos <= Len(s)
  SubSeq(s, 1, pos) \o t \o SubSeq(s, pos + Len(t) + 1, Len(s))

Int21(m, d, o) ==
  LET ah == Hi(m.r[AX])
      h == m.r[BX]
      cnt == m.r[CX]
      name == Asciiz(m, m.r[DX], 128)
  IN CASE ah = 2 ->
            \* AL may hold the character afterwards
            LET ax == IF o.r[AX] = m.r[AX] - Lo(m.r[AX]) + Lo(m.r[DX]) THEN o.r[AX] ELSE m.r[AX]
            IN [c |-> [m EXCEPT !.r[AX] = ax], d |-> [d EXCEPT !.con = Append(@, Lo(m.r[DX]))], st |-> "run"]
       [] ah \in {60, 61} ->   \* 3C create, 3D open for reading
            IF name = <<-1>> \/ name = <<>> \/ (\E i \in 1..Len(P.nodirs) : P.nodirs[i] = name) \/ (ah = 61 /\ name \notin DOMAIN d.fs) THEN DosFail(m, d, o)
            ELSE LET nh == o.r[AX] IN
                 IF nh < 3 \/ nh > 255 \/ IsOpen(d, nh) THEN [c |-> m, d |-> d, st |-> "badhandle"]
                 ELSE DosOk(m, [d EXCEPT !.fs = IF ah = 60 THEN (name :> <<>>) @@ @ ELSE @,
                                         !.hs = (nh :> [f |-> name, pos |-> 0, wr |-> ah = 60]) @@ @], nh)
       [] ah = 62 ->   \* 3E close
            IF ~IsOpen(d, h) THEN DosFail(m, d, o)
            ELSE LET m1 == [m EXCEPT !.r[AX] = o.r[AX]] IN   \* AX is not preserved by DOS
                 [c |-> Carry(m1, FALSE), d |-> [d EXCEPT !.hs = [x \in DOMAIN @ \ {h} |-> @[x]]], st |-> "run"]
       [] ah = 63 ->   \* 3F read
            IF ~IsOpen(d, h) \/ (IsOpen(d, h) /\ d.hs[h].wr) THEN DosFail(m, d, o)
            ELSE LET q == d.hs[h]
                     s == d.fs[q.f]
                     k == IF Len(s) - q.pos < cnt THEN Len(s) - q.pos ELSE cnt
                     m1 == Place(m, m.r[DX], SubSeq(s, q.pos + 1, q.pos + k))
                 IN DosOk(m1, [d EXCEPT !.hs[h].pos = @ + k], k)
       [] ah = 64 ->   \* 40 write
            IF h \in {1, 2} THEN DosOk(m, [d EXCEPT !.con = IF h = 1 THEN @ \o Bytes(m, m.r[DX], cnt) ELSE @], cnt)
            ELSE IF ~IsOpen(d, h) \/ (IsOpen(d, h) /\ ~d.hs[h].wr) THEN DosFail(m, d, o)
            ELSE IF P.opaque THEN DosOk(m, d, cnt)     \* the contents are compared as final memory
            ELSE LET q == d.hs[h] IN
                 DosOk(m, [d EXCEPT !.fs[q.f] = Overwrite(@, q.pos, Bytes(m, m.r[DX], cnt)), !.hs[h].pos = @ + cnt], cnt)
       [] ah = 76 -> [c |-> m, d |-> d, st |-> "exit"]
       [] OTHER -> [c |-> m, d |-> d, st |-> "stop"]

-----------------------------------------------------------------------------
(* One instruction.  The result is [c, d, st, m]: processor, DOS, "run",   *)
(* "exit" or "stop" (not implemented), and the mnemonic.                   *)
RECURSIVE Prefix(_, _, _, _, _)
Prefix(m, ip, sg, rep, k) ==
  LET b == Code8(m, ip) IN
  CASE k > 14 -> [op |-> 240, ip |-> ip, sg |-> sg, rep |-> rep]
    [] b \in {38, 46, 54, 62} -> Prefix(m, W(ip + 1), (b - 38) \div 8 + 1, rep, k + 1)
    [] b \in {242, 243} -> Prefix(m, W(ip + 1), sg, b, k + 1)
    [] OTHER -> [op |-> b, ip |-> W(ip + 1), sg |-> sg, rep |-> rep]

AluNames == <<"ADD", "OR", "ADC", "SBB", "AND", "SUB", "XOR", "CMP">>
JccNames == <<"JO", "JNO", "JC", "JNC", "JZ", "JNZ", "JNA", "JA", "JS", "JNS", "JP", "JNP", "JL", "JNL", "JNG", "JG">>

Exec(m, d, o) ==
  LET x == Prefix(m, m.ip, 0, 0, 0)
      op == x.op
      ip == x.ip
      dz == op % 2
      rn == op % 8
      mr == ModRM(m, ip, x.sg)
      ssg == IF x.sg = 0 THEN DS ELSE x.sg
      sCX == m.r[CX]
      Run(m1, nm) == [c |-> m1, d |-> d, st |-> "run", m |-> nm]
      At(m1, i) == [m1 EXCEPT !.ip = W(i)]
      Stop == [c |-> m, d |-> d, st |-> "stop", m |-> ""]
  IN
  CASE op < 64 /\ op % 8 < 4 ->   \* ALU r/m,r and r,r/m
         LET aop == op \div 8
             a == GetRM(m, mr, dz)
             b == Get(m, mr.reg, dz)
             q == IF Bit(op, 2) = 0 THEN Alu(aop, a, b, FC(m), dz) ELSE Alu(aop, b, a, FC(m), dz)
             m1 == IF aop = CMP THEN m ELSE IF Bit(op, 2) = 0 THEN SetRM(m, mr, dz, q.v) ELSE Set(m, mr.reg, dz, q.v)
         IN Run([At(m1, mr.ip) EXCEPT !.f = q.f], AluNames[aop + 1])
    [] op < 64 /\ op % 8 \in {4, 5} ->   \* ALU AL/AX,imm
         LET aop == op \div 8
             imm == IF dz = 1 THEN Code16(m, ip) ELSE Code8(m, ip)
             q == Alu(aop, Get(m, 0, dz), imm, FC(m), dz)
             m1 == IF aop = CMP THEN m ELSE Set(m, 0, dz, q.v)
         IN Run([At(m1, ip + 1 + dz) EXCEPT !.f = q.f], AluNames[aop + 1])
    [] op \in {6, 14, 22, 30} -> Run(At(Push(m, m.s[op \div 8 + 1]), ip), "PUSH")
    [] op \in {7, 15, 23, 31} -> LET v == Top(m) IN Run(At([Drop(m) EXCEPT !.s[op \div 8 + 1] = v], ip), "POP")
    [] op \in 64..79 ->   \* INC, DEC r16
         LET q == Alu(IF op < 72 THEN ADD ELSE SUB, m.r[rn + 1], 1, 0, 1)
         IN Run([At(Set(m, rn, 1, q.v), ip) EXCEPT !.f = <<q.f[1], q.f[2], q.f[3], FC(m)>>], IF op < 72 THEN "INC" ELSE "DEC")
    [] op \in 80..87 ->   \* PUSH r16; PUSH SP stores the new SP on the 8086, the old one on later processors
         LET m1 == Push(m, m.r[rn + 1])
             m2 == Push(m, W(m.r[SP] - 2))
         IN Run(At(IF rn = 4 /\ P.pushsp = "new" THEN m2 ELSE m1, ip), "PUSH")
    [] op \in 88..95 -> LET v == Top(m) IN Run(At(Set(Drop(m), rn, 1, v), ip), "POP")
    [] op \in 112..127 /\ op \notin {122, 123} ->
         Run(At(m, ip + 1 + (IF Cond(m, op - 112) THEN SX8(Code8(m, ip)) ELSE 0)), JccNames[op - 111])
    [] op \in 128..131 ->
         LET imm == IF op = 129 THEN Code16(m, mr.ip) ELSE IF op = 131 THEN W(SX8(Code8(m, mr.ip))) ELSE Code8(m, mr.ip)
             q == Alu(mr.reg, GetRM(m, mr, dz), imm, FC(m), dz)
             m1 == IF mr.reg = CMP THEN m ELSE SetRM(m, mr, dz, q.v)
         IN Run([At(m1, mr.ip + (IF op = 129 THEN 2 ELSE 1)) EXCEPT !.f = q.f], AluNames[mr.reg + 1])
    [] op \in {136, 137} -> Run(At(SetRM(m, mr, dz, Get(m, mr.reg, dz)), mr.ip), "MOV")
    [] op \in {138, 139} -> Run(At(Set(m, mr.reg, dz, GetRM(m, mr, dz)), mr.ip), "MOV")
    [] op = 140 /\ mr.reg < 4 -> Run(At(SetRM(m, mr, 1, m.s[mr.reg + 1]), mr.ip), "MOV")
    [] op = 141 /\ mr.mod # 3 -> Run(At(Set(m, mr.reg, 1, mr.ea), mr.ip), "LEA")
    [] op = 142 /\ mr.reg < 4 -> LET v == GetRM(m, mr, 1) IN Run(At([m EXCEPT !.s[mr.reg + 1] = v], mr.ip), "MOV")
    [] op \in 144..151 ->
         Run(At(Set(Set(m, rn, 1, m.r[AX]), 0, 1, m.r[rn + 1]), ip), IF op = 144 THEN "NOP" ELSE "XCHG")
    [] op = 152 -> Run(At(Set(m, 0, 1, SX8(Lo(m.r[AX]))), ip), "CBW")
    [] op = 153 -> Run(At(Set(m, 2, 1, IF m.r[AX] >= 32768 THEN -1 ELSE 0), ip), "CWD")
    [] op \in {160, 161} -> Run(At(Set(m, 0, dz, Rd(m, ssg, Code16(m, ip), dz)), ip + 2), "MOV")
    [] op \in {162, 163} -> Run(At(Wr(m, ssg, Code16(m, ip), Get(m, 0, dz), dz), ip + 2), "MOV")
    [] op \in {164, 165} /\ x.rep = 243 -> Run(At(Movs(m, ssg, dz), ip), IF dz = 1 THEN "REP MOVSW" ELSE "REP MOVSB")
    [] op = 166 /\ x.rep = 243 -> Run(At(Cmps(m, ssg), ip), "REPE CMPSB")
    [] op \in {170, 171} ->
         LET m1 == IF x.rep # 0 THEN [Stos(m, dz, sCX) EXCEPT !.r[CX] = 0] ELSE Stos(m, dz, 1)
         IN Run(At(m1, ip), (IF x.rep # 0 THEN "REP " ELSE "") \o (IF dz = 1 THEN "STOSW" ELSE "STOSB"))
    [] op \in {172, 173} /\ x.rep = 0 ->
         Run(At(Inc(Set(m, 0, dz, Rd(m, ssg, m.r[SI], dz)), SI, dz + 1), ip), IF dz = 1 THEN "LODSW" ELSE "LODSB")
    [] op = 174 /\ x.rep = 242 -> Run(At(Scas(m), ip), "REPNE SCASB")
    [] op \in 176..183 -> Run(At(Set(m, rn, 0, Code8(m, ip)), ip + 1), "MOV")
    [] op \in 184..191 -> Run(At(Set(m, rn, 1, Code16(m, ip)), ip + 2), "MOV")
    [] op = 195 -> LET v == Top(m) IN Run(At(Drop(m), v), "RET")
    [] op \in {198, 199} ->
         LET imm == IF dz = 1 THEN Code16(m, mr.ip) ELSE Code8(m, mr.ip)
         IN Run(At(SetRM(m, mr, dz, imm), mr.ip + 1 + dz), "MOV")
    [] op = 205 ->
         LET v == Code8(m, ip)
             m1 == At(m, ip + 1)
         IN CASE v = 32 -> [c |-> [m1 EXCEPT !.r[AX] = 0], d |-> d, st |-> "exit", m |-> "INT"]
              [] v = 33 -> LET q == Int21(m1, d, o) IN [c |-> q.c, d |-> q.d, st |-> q.st, m |-> "INT"]
              [] OTHER -> Stop
    [] op = 209 /\ mr.reg \in {4, 5, 7} -> Run(Shift(m, mr, 1, TRUE), <<"SHL", "SHR", "", "SAR">>[mr.reg - 3])
    [] op = 211 /\ mr.reg \in {4, 5, 7} -> Run(Shift(m, mr, Lo(sCX), FALSE), <<"SHL", "SHR", "", "SAR">>[mr.reg - 3])
    [] op = 232 -> LET rel == Code16(m, ip) IN Run(At(Push(m, W(ip + 2)), ip + 2 + rel), "CALL")
    [] op = 233 -> Run(At(m, ip + 2 + Code16(m, ip)), "JMP")
    [] op = 235 -> Run(At(m, ip + 1 + SX8(Code8(m, ip))), "JMP")
    [] op = 247 /\ mr.reg = 2 -> Run(At(SetRM(m, mr, 1, 65535 - GetRM(m, mr, 1)), mr.ip), "NOT")
    [] op = 247 /\ mr.reg = 3 ->
         LET q == Alu(SUB, 0, GetRM(m, mr, 1), 0, 1) IN Run([At(SetRM(m, mr, 1, q.v), mr.ip) EXCEPT !.f = q.f], "NEG")
    [] op = 247 /\ mr.reg \in {4, 5} ->
         LET v == GetRM(m, mr, 1)
             p == IF mr.reg = 4 THEN Mul(m.r[AX], v) ELSE IMul(m.r[AX], v)
             big == IF mr.reg = 4 THEN p[1] # 0 ELSE p[1] # (IF p[2] >= 32768 THEN 65535 ELSE 0)
         IN Run([At(Set(Set(m, 0, 1, p[2]), 2, 1, p[1]), mr.ip) EXCEPT !.f = <<Bool(big), Undef, Undef, Bool(big)>>],
                IF mr.reg = 4 THEN "MUL" ELSE "IMUL")
    [] op = 247 /\ mr.reg = 6 ->   \* dividends of more than 16 bits are not implemented
         LET v == GetRM(m, mr, 1) IN
         IF v = 0 \/ m.r[DX] # 0 THEN Stop
         ELSE Run([At(Set(Set(m, 0, 1, m.r[AX] \div v), 2, 1, m.r[AX] % v), mr.ip) EXCEPT !.f = <<Undef, Undef, Undef, Undef>>], "DIV")
    [] op = 247 /\ mr.reg = 7 ->
         LET v == SX16(GetRM(m, mr, 1))
             a == SX16(m.r[AX])
         IN IF v = 0 \/ m.r[DX] # (IF a < 0 THEN 65535 ELSE 0) \/ (a = -32768 /\ v = -1) THEN Stop
            ELSE Run([At(Set(Set(m, 0, 1, TDiv(a, v)), 2, 1, TMod(a, v)), mr.ip) EXCEPT !.f = <<Undef, Undef, Undef, Undef>>], "IDIV")
    [] op \in {254, 255} /\ mr.reg \in {0, 1} ->
         LET q == Alu(IF mr.reg = 0 THEN ADD ELSE SUB, GetRM(m, mr, dz), 1, 0, dz)
         IN Run([At(SetRM(m, mr, dz, q.v), mr.ip) EXCEPT !.f = <<q.f[1], q.f[2], q.f[3], FC(m)>>], IF mr.reg = 0 THEN "INC" ELSE "DEC")
    [] op = 255 /\ mr.reg = 2 -> LET v == GetRM(m, mr, 1) IN Run(At(Push(m, mr.ip), v), "CALL")
    [] OTHER -> Stop

-----------------------------------------------------------------------------
(* The operands a listing of the instruction at CS:IP shows: <<1, r>> and  *)
(* <<2, r>> byte and word registers, <<3, s>> segment registers,           *)
(* <<4, override or 0, base, displacement>> memory, with base 8 for a      *)
(* plain address, <<5, value, is a word>> numbers and jump targets         *)
RegOp(i, d) == <<1 + d, i>>
RmOp(m, ip, sg, d) ==
  LET b == Code8(m, ip)
      mod == b \div 64
      rm == b % 8
      q == ModRM(m, ip, sg)
  IN IF mod = 3 THEN RegOp(rm, d)
     ELSE IF mod = 0 /\ rm = 6 THEN <<4, sg, q.sg, 8, Code16(m, ip + 1)>>
     ELSE <<4, sg, q.sg, rm, IF mod = 0 THEN 0 ELSE IF mod = 1 THEN W(SX8(Code8(m, ip + 1))) ELSE Code16(m, ip + 1)>>
ImmOp(v, d) == <<5, W(v), d>>
ShownOps(m) ==
  LET x == Prefix(m, m.ip, 0, 0, 0)
      op == x.op
      ip == x.ip
      dz == op % 2
      mr == ModRM(m, ip, x.sg)
      rm == RmOp(m, ip, x.sg, dz)
      rmw == RmOp(m, ip, x.sg, 1)
      dsg == IF x.sg = 0 THEN DS ELSE x.sg
      far(k) == <<ImmOp(ip + k + (IF k = 1 THEN SX8(Code8(m, ip)) ELSE Code16(m, ip)), 1)>>
  IN
  CASE op < 64 /\ op % 8 < 4 -> IF Bit(op, 2) = 0 THEN <<rm, RegOp(mr.reg, dz)>> ELSE <<RegOp(mr.reg, dz), rm>>
    [] op < 64 /\ op % 8 \in {4, 5} -> <<RegOp(0, dz), ImmOp(IF dz = 1 THEN Code16(m, ip) ELSE Code8(m, ip), dz)>>
    [] op < 32 -> <<<<3, op \div 8>>>>
    [] op \in 64..95 -> <<RegOp(op % 8, 1)>>
    [] op \in 112..127 -> far(1)
    [] op \in 128..131 -> <<rm, ImmOp(IF op = 129 THEN Code16(m, mr.ip) ELSE IF op = 131 THEN SX8(Code8(m, mr.ip)) ELSE Code8(m, mr.ip), dz)>>
    [] op \in {136, 137} -> <<rm, RegOp(mr.reg, dz)>>
    [] op \in {138, 139} -> <<RegOp(mr.reg, dz), rm>>
    [] op = 140 -> <<rmw, <<3, mr.reg>>>>
    [] op = 141 -> <<RegOp(mr.reg, 1), rmw>>
    [] op = 142 -> <<<<3, mr.reg>>, rmw>>
    [] op \in 145..151 -> <<RegOp(0, 1), RegOp(op % 8, 1)>>
    [] op \in {160, 161} -> <<RegOp(0, dz), <<4, x.sg, dsg, 8, Code16(m, ip)>>>>
    [] op \in {162, 163} -> <<<<4, x.sg, dsg, 8, Code16(m, ip)>>, RegOp(0, dz)>>
    [] op \in 176..183 -> <<RegOp(op % 8, 0), ImmOp(Code8(m, ip), 0)>>
    [] op \in 184..191 -> <<RegOp(op % 8, 1), ImmOp(Code16(m, ip), 1)>>
    [] op \in {198, 199} -> <<rm, ImmOp(IF dz = 1 THEN Code16(m, mr.ip) ELSE Code8(m, mr.ip), dz)>>
    [] op = 205 -> <<ImmOp(Code8(m, ip), 0)>>
    [] op = 209 -> <<rm, ImmOp(1, 0)>>
    [] op = 211 -> <<rm, RegOp(1, 0)>>
    [] op \in {232, 233} -> far(2)
    [] op = 235 -> far(1)
    [] op \in {247, 254, 255} -> <<rm>>
    [] OTHER -> <<>>
(* got: as shown.  An override of a plain address need not be shown; the default segment may be *)
SameOp(e, g) ==
  CASE e[1] = 4 -> Len(g) = 4 /\ g[1] = 4 /\ g[3] = e[4] /\ g[4] = e[5] /\ (g[2] = e[2] \/ g[2] = e[3] \/ (g[2] = 0 /\ e[4] = 8))
    [] e[1] = 5 -> Len(g) = 2 /\ g[1] = 5 /\ (IF e[3] = 1 THEN W(g[2]) = e[2] ELSE B(g[2]) = B(e[2]))
    [] OTHER -> e = g
SameOps(e, g) == Len(e) = Len(g) /\ \A i \in 1..Len(e) : SameOp(e[i], g[i])

-----------------------------------------------------------------------------
(* Runs *)
EmptyFn == [x \in {} |-> <<>>]
RECURSIVE FileFn(_, _)
FileFn(fs, i) == IF i > Len(fs) THEN EmptyFn ELSE (fs[i].n :> fs[i].d) @@ FileFn(fs, i + 1)

Init ==
  /\ pid \in 1..Len(Progs)
  /\ n = 0
  /\ c = [r |-> <<0, 0, 0, 0, 65534, 0, 0, 0>>, s |-> <<P.seg, P.seg, P.seg, P.seg>>, ip |-> 256, f |-> <<0, 0, 0, 0>>,
          w |-> [a \in {} |-> 0]]
  /\ dos = [prof |-> [seen |-> EmptyFn, low |-> 65535], fs |-> (<<0>> :> P.stdin) @@ FileFn(P.files, 1), hs |-> (0 :> [f |-> <<0>>, pos |-> 0, wr |-> FALSE]), con |-> <<>>]
  /\ res = "run"

Verdict(v, what) == res' = v /\ PrintT(<<"VERDICT", pid, v, n, what>>)

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
SameFlags(p, q) == \A i \in 1..4 : p[i] = Undef \/ p[i] = q[i]
(* The final memory: exactly the recorded differences from the initial one *)
FinalMem(m) ==
  /\ \A i \in 1..Len(P.fin) : Mem(m, P.fin[i][1]) = P.fin[i][2]
  /\ LET diff == {P.fin[i][1] : i \in 1..Len(P.fin)} IN \A a \in DOMAIN m.w : m.w[a] = Base(a) \/ a \in diff
FinalFiles(d) ==
  /\ \A i \in 1..Len(P.left) : P.left[i].n \in DOMAIN d.fs /\ SameSeq(d.fs[P.left[i].n], P.left[i].d)
  /\ \A nm \in DOMAIN d.fs : nm = <<0>> \/ \E i \in 1..Len(P.left) : P.left[i].n = nm
(* The instruction that ends the program may be missing from trace and profile.  The profile lists every executed address with the    *)
(* instruction first found there, and names it by the closest symbol before it.  What it adds up is up to the simulator, but at     *)
(* least one for every time, and its sums over functions and over the program are those sums; it has the size of the program and    *)
(* the lowest stack pointer.                                                                                                         *)
Note(x) == [dos.prof EXCEPT !.seen = IF c.ip \in DOMAIN @ THEN [@ EXCEPT ![c.ip].n = @ + 1] ELSE (c.ip :> [m |-> x.m, o |-> ShownOps(c), n |-> 1]) @@ @,
                            !.low = IF c.r[SP] # 0 /\ c.r[SP] < @ THEN c.r[SP] ELSE @]
Prof == P.report.at
SymOK(e) == \/ e.sym = ""    \* before the first symbol
            \/ \E i \in 1..Len(P.syms) :
                 /\ P.syms[i].n = e.sym /\ P.syms[i].a + e.off = e.a /\ P.syms[i].a <= e.a
                 /\ \A j \in 1..Len(P.syms) : P.syms[j].a <= P.syms[i].a \/ P.syms[j].a > e.a
EntryOK(e, seen) == /\ e.a \in DOMAIN seen
                    /\ seen[e.a].m = e.m /\ SameOps(seen[e.a].o, e.o) /\ e.n >= seen[e.a].n
                    /\ SymOK(e)
RECURSIVE SumOf(_, _)   \* of the entries for one symbol, or all for "*"
SumOf(nm, i) == IF i = 0 THEN 0 ELSE SumOf(nm, i - 1) + (IF nm = "*" \/ Prof[i].sym = nm THEN Prof[i].n ELSE 0)
ProfileOK(q) ==
  /\ DOMAIN q.seen = {Prof[i].a : i \in 1..Len(Prof)}
  /\ Cardinality(DOMAIN q.seen) = Len(Prof)
  /\ \A i \in 1..Len(Prof) : EntryOK(Prof[i], q.seen)
TotalsOK == LET fn == P.report.fn IN
  /\ P.report.size = Len(P.img)
  /\ P.report.total = SumOf("*", Len(Prof))
  /\ {fn[i].n : i \in 1..Len(fn)} = {Prof[i].sym : i \in 1..Len(Prof)}
  /\ \A i \in 1..Len(fn) : fn[i].t = SumOf(fn[i].n, Len(Prof)) /\ \A j \in 1..Len(fn) : fn[j].n = fn[i].n => i = j
NoObs == [r |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]

Finish(x) ==
  LET m == x.c
      code == Lo(m.r[AX])
  IN CASE n # Len(P.steps) -> Verdict("mismatch", <<"runs on after the end", P.steps[n + 1].i>>)
       [] P.exit # code -> Verdict("mismatch", <<"exit code", P.exit, code>>)
       [] P.dumped /\ ~FinalMem(m) -> Verdict("mismatch", <<"memory", {a \in DOMAIN m.w : m.w[a] # Base(a) /\ ~\E i \in 1..Len(P.fin) : P.fin[i] = <<a, m.w[a]>>},
                                                            {P.fin[i] : i \in {j \in 1..Len(P.fin) : Mem(m, P.fin[j][1]) # P.fin[j][2]}}>>)
       [] P.hascon /\ ~SameSeq(P.con, x.d.con) -> Verdict("mismatch", <<"console", P.con, x.d.con>>)
       [] P.hasvcon /\ ~SameSeq(P.vcon, x.d.con) -> Verdict("mismatch", <<"console with -v", P.vcon, x.d.con>>)
       [] P.prof /\ ~(ProfileOK(Note(x)) \/ ProfileOK(dos.prof)) ->
            Verdict("mismatch", <<"profile", {<<Prof[i].a, Prof[i].m, Prof[i].o, Prof[i].n, Prof[i].sym, Prof[i].off>> : i \in {j \in 1..Len(Prof) : ~EntryOK(Prof[j], Note(x).seen)}}, "not listed", DOMAIN Note(x).seen \ {Prof[i].a : i \in 1..Len(Prof)},
                                  "expected", {<<Prof[i].a, Note(x).seen[Prof[i].a].m, Note(x).seen[Prof[i].a].o, Note(x).seen[Prof[i].a].n>> : i \in {j \in 1..Len(Prof) : Prof[j].a \in DOMAIN Note(x).seen /\ ~EntryOK(Prof[j], Note(x).seen)}}>>)
       [] P.prof /\ ~TotalsOK -> Verdict("mismatch", <<"totals of the profile", P.report.size, Len(P.img), P.report.total, SumOf("*", Len(Prof)), {<<P.report.fn[i].n, P.report.fn[i].t>> : i \in 1..Len(P.report.fn)}>>)
       [] P.prof /\ P.report.low \notin {Note(x).low, dos.prof.low} -> Verdict("mismatch", <<"lowest stack pointer", P.report.low, Note(x).low>>)
       [] ~P.opaque /\ ~FinalFiles(x.d) -> Verdict("mismatch", <<"files", {<<nm, x.d.fs[nm]>> : nm \in DOMAIN x.d.fs}>>)
       [] OTHER -> Verdict("ok", <<>>)

Next ==
  /\ res = "run"
  /\ n' = n + 1
  /\ UNCHANGED pid
  /\ LET more == n < Len(P.steps)
         o == IF more THEN P.steps[n + 1] ELSE NoObs
         x == Exec(c, dos, o)
     IN CASE Len(P.tail) > 126 ->
               /\ UNCHANGED <<c, dos>>
               /\ IF more \/ P.exit = 0 THEN Verdict("mismatch", <<"accepts a command line that does not fit the PSP">>) ELSE Verdict("stopped", <<>>)
          [] x.st = "stop" ->
               /\ UNCHANGED <<c, dos>>
               /\ IF more THEN Verdict("mismatch", <<"executes what it does not implement", c.ip, Code8(c, c.ip), Code8(c, c.ip + 1)>>)
                  ELSE IF P.exit = 0 THEN Verdict("mismatch", <<"no error for an instruction that is not implemented", c.ip>>)
                  ELSE Verdict("stopped", <<Code8(c, c.ip), Code8(c, c.ip + 1)>>)
          [] x.st = "badhandle" -> UNCHANGED <<c, dos>> /\ Verdict("mismatch", <<"handle", o.r[AX], DOMAIN dos.hs>>)
          [] x.st = "exit" -> UNCHANGED <<c, dos>> /\ Finish(x)
          [] x.st = "run" ->
               IF ~more THEN UNCHANGED <<c, dos>> /\ (IF P.cut THEN Verdict("cut", <<>>) ELSE Verdict("mismatch", <<"stops early", c.ip, Code8(c, c.ip), Code8(c, c.ip + 1), P.exit>>))
               ELSE IF o.i = c.ip /\ o.ip = x.c.ip /\ SameSeq(o.r, x.c.r) /\ SameSeq(o.s, x.c.s) /\ SameFlags(x.c.f, o.f) /\ (~P.names \/ (o.m = x.m /\ SameOps(ShownOps(c), o.a)))
               THEN c' = [x.c EXCEPT !.f = o.f] /\ dos' = (IF P.prof THEN [x.d EXCEPT !.prof = Note(x)] ELSE x.d) /\ UNCHANGED res
               ELSE /\ UNCHANGED <<c, dos>>
                    /\ Verdict("mismatch", <<"step", c.ip, x.m, Code8(c, c.ip), Code8(c, c.ip + 1), "expected", x.c.ip, x.c.r, x.c.s, x.c.f,
                                             "got", o.i, o.m, o.ip, o.r, o.s, o.f, IF P.names THEN <<ShownOps(c), o.a>> ELSE <<>>, "before", c.r, c.s, c.f>>)

Spec == Init /\ [][Next]_vars
View == <<pid, n>>
(* The machine never leaves its state space *)
TypeOK == /\ \A i \in 1..8 : c.r[i] \in 0..65535
          /\ \A i \in 1..4 : c.s[i] \in 0..65535 /\ c.f[i] \in 0..1
          /\ c.ip \in 0..65535
=============================================================================
