-------------------------------- MODULE CSyn --------------------------------
(***************************************************************************)
(* The grammar of the C dialect as a pushdown machine, and the verdicts on *)
(* what the real compiler did with mutated programs.                       *)
(*                                                                         *)
(* The machine reads the tokens CLex gives.  Its stack has symbols still   *)
(* to come; a nonterminal on top is expanded according to the next token   *)
(* (LL(1)), a terminal has to be that token.  Where it is stuck, nothing   *)
(* that follows can make the text a program: the error is at that token.   *)
(* It also keeps the scopes, the labels of the function and what encloses  *)
(* the statement, for the rules on names, goto, break, continue and case.  *)
(* Symbols the dialect is more liberal with than C (a comma before a       *)
(* closing parenthesis, a missing int) are liberal here too; "?" is a      *)
(* place where C goes on but the dialect needn't: nothing is judged then.  *)
(***************************************************************************)
EXTENDS CLex, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.SYN_CASES)
VARIABLES pid, res
vars == <<pid, res>>

--------------------------------------------------------------------------
(* Token classes *)
\* JSON gives names as byte sequences: keywords are a table from spelling to class
KW == [w \in {<<118,111,105,100>>, <<99,104,97,114>>, <<115,104,111,114,116>>, <<105,110,116>>, <<118,97,95,108,105,115,116>>,
              <<97,117,116,111>>, <<99,111,110,115,116>>, <<101,120,116,101,114,110>>, <<114,101,103,105,115,116,101,114>>, <<118,111,108,97,116,105,108,101>>,
              <<115,116,97,116,105,99>>, <<115,105,103,110,101,100>>, <<116,121,112,101,100,101,102>>, <<117,110,115,105,103,110,101,100>>,
              <<101,110,117,109>>, <<115,116,114,117,99,116>>, <<117,110,105,111,110>>,
              <<114,101,116,117,114,110>>, <<98,114,101,97,107>>, <<99,111,110,116,105,110,117,101>>, <<103,111,116,111>>, <<95,101,109,105,116>>,
              <<105,102>>, <<102,111,114>>, <<119,104,105,108,101>>, <<100,111>>, <<115,119,105,116,99,104>>, <<99,97,115,101>>, <<100,101,102,97,117,108,116>>,
              <<101,108,115,101>>, <<115,105,122,101,111,102>>, <<118,97,95,115,116,97,114,116>>, <<118,97,95,97,114,103>>, <<118,97,95,101,110,100>>} |->
  CASE w = <<118,111,105,100>> -> "void" [] w = <<99,104,97,114>> -> "char" [] w = <<115,104,111,114,116>> -> "short" [] w = <<105,110,116>> -> "int"
    [] w = <<118,97,95,108,105,115,116>> -> "va_list" [] w = <<97,117,116,111>> -> "auto" [] w = <<99,111,110,115,116>> -> "const"
    [] w = <<101,120,116,101,114,110>> -> "extern" [] w = <<114,101,103,105,115,116,101,114>> -> "register" [] w = <<118,111,108,97,116,105,108,101>> -> "volatile"
    [] w = <<115,116,97,116,105,99>> -> "static" [] w = <<115,105,103,110,101,100>> -> "signed" [] w = <<116,121,112,101,100,101,102>> -> "typedef"
    [] w = <<117,110,115,105,103,110,101,100>> -> "unsigned" [] w = <<101,110,117,109>> -> "enum" [] w = <<115,116,114,117,99,116>> -> "struct"
    [] w = <<117,110,105,111,110>> -> "union" [] w = <<114,101,116,117,114,110>> -> "return" [] w = <<98,114,101,97,107>> -> "break"
    [] w = <<99,111,110,116,105,110,117,101>> -> "continue" [] w = <<103,111,116,111>> -> "goto" [] w = <<95,101,109,105,116>> -> "_emit"
    [] w = <<105,102>> -> "if" [] w = <<102,111,114>> -> "for" [] w = <<119,104,105,108,101>> -> "while" [] w = <<100,111>> -> "do"
    [] w = <<115,119,105,116,99,104>> -> "switch" [] w = <<99,97,115,101>> -> "case" [] w = <<100,101,102,97,117,108,116>> -> "default"
    [] w = <<101,108,115,101>> -> "else" [] w = <<115,105,122,101,111,102>> -> "sizeof" [] w = <<118,97,95,115,116,97,114,116>> -> "va_start"
    [] w = <<118,97,95,97,114,103>> -> "va_arg" [] w = <<118,97,95,101,110,100>> -> "va_end"]

OpName == [o \in Ops |->
  CASE o = <<59>> -> ";" [] o = <<40>> -> "(" [] o = <<41>> -> ")" [] o = <<123>> -> "{" [] o = <<125>> -> "}" [] o = <<91>> -> "[" [] o = <<93>> -> "]"
    [] o = <<58>> -> ":" [] o = <<126>> -> "~" [] o = <<44>> -> "," [] o = <<63>> -> "??" [] o = <<61>> -> "=" [] o = <<33>> -> "!"
    [] o = <<38>> -> "&" [] o = <<42>> -> "*" [] o = <<43>> -> "+" [] o = <<45>> -> "-" [] o = <<43,43>> -> "++" [] o = <<45,45>> -> "--"
    [] o = <<45,62>> -> "->" [] o = <<46>> -> "." [] o = <<46,46,46>> -> "..." [] OTHER -> "binop"]

Class(t) == CASE t.k = "id" -> (IF t.s \in DOMAIN KW THEN KW[t.s] ELSE "id")
              [] t.k = "op" -> OpName[t.s] [] OTHER -> t.k
EofT == [k |-> "eof", s |-> <<>>, v |-> <<>>, ln |-> 0]

Quals == {"auto", "const", "extern", "register", "volatile", "static", "typedef"}
Types == {"void", "char", "short", "int", "va_list", "signed", "unsigned"}
TypeStart == Quals \cup Types \cup {"enum", "struct", "union", "td"}
Bin == {"binop", "=", "&", "*", "+", "-"}
UnOp == {"-", "!", "*", "&", "~", "+", "++", "--"}
Postfix == {"(", "[", ".", "->", "++", "--"}

--------------------------------------------------------------------------
(* The grammar: what nonterminal x becomes before a token of class c.  Symbols that start with a capital are nonterminals; *)
(* those that start with # act on the scopes when they come up.                                                             *)
E == <<"!error">>
N == <<"!name">>                              \* a name is missing: may be noticed at the end of the declarator
Q == <<"!skip">>
Expand(x, c) ==
  CASE x = "Prog" -> (IF c = "eof" THEN <<>> ELSE <<"Ext", "Prog">>)
    [] x = "Ext" -> <<"#notd", "Spec", "ExtA">>
    [] x = "ExtA" -> (IF c = ";" THEN <<";">> ELSE <<"ExtD">>)
    [] x = "ExtD" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "ExtD">> [] c = "(" -> Q [] c = "id" -> <<"#decl", "id", "ExtT">> [] c = "td" -> Q [] OTHER -> N)
    [] x = "ExtT" -> (IF c = "(" THEN <<"#push", "(", "Params", ")", "FnRest">> ELSE <<"Dims", "VarRest">>)
    [] x = "FnRest" -> (CASE c = "{" -> <<"#fn", "St", "#endfn", "#pop">> [] c = ";" -> <<"#pop", ";">> [] c = "," -> Q [] OTHER -> E)
    [] x = "VarRest" -> (IF c = "=" THEN <<"=", "Asg", "VarMore">> ELSE <<"VarMore">>)
    [] x = "VarMore" -> (CASE c = "," -> <<",", "ExtV">> [] c = ";" -> <<";">> [] OTHER -> E)
    [] x = "ExtV" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "ExtV">> [] c \in {"(", "td"} -> Q [] c = "id" -> <<"#decl", "id", "ExtW">> [] OTHER -> N)
    [] x = "ExtW" -> (IF c = "(" THEN Q ELSE <<"Dims", "VarRest">>)
    [] x = "Spec" -> (CASE c \in Quals -> (IF c = "typedef" THEN <<"#istd", c, "Spec">> ELSE <<c, "Spec">>) [] c \in Types \cup {"td"} -> <<c, "Spec2">>
                        [] c = "enum" -> <<c, "EnumA", "Spec2">> [] c \in {"struct", "union"} -> <<c, "StructA", "Spec2">> [] OTHER -> <<>>)
    [] x = "Spec2" -> (IF c = "td" THEN Q ELSE <<"Spec">>)
    [] x = "EnumA" -> (IF c \in {"id", "td"} THEN <<c, "EnumB">> ELSE <<"EnumB">>)
    [] x = "EnumB" -> (IF c = "{" THEN <<c, "Enums", "}">> ELSE <<>>)
    [] x = "Enums" -> (CASE c = "}" -> <<>> [] c = "id" -> <<"#enum", "id", "EnumI", "EnumM">> [] c = "td" -> Q [] OTHER -> E)
    [] x = "EnumI" -> (IF c = "=" THEN <<c, "Asg">> ELSE <<>>)
    [] x = "EnumM" -> (IF c = "," THEN <<c, "Enums">> ELSE <<>>)
    [] x = "StructA" -> (IF c \in {"id", "td"} THEN <<c, "StructB">> ELSE <<"StructB">>)
    [] x = "StructB" -> (IF c = "{" THEN <<c, "Members", "}">> ELSE <<>>)
    [] x = "Members" -> (IF c = "}" THEN <<>> ELSE <<"Spec", "MemD", ";", "Members">>)
    [] x = "MemD" -> (IF c = ";" THEN <<>> ELSE <<"MemN", "MemM">>)
    [] x = "MemM" -> (IF c = "," THEN <<c, "MemD">> ELSE <<>>)
    [] x = "MemN" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "MemN">> [] c = "(" -> <<c, "*", "IdM", ")", "FnPar">> [] c = "id" -> <<c, "MemT">> [] c = "td" -> Q [] OTHER -> N)
    [] x = "MemT" -> (IF c = "(" THEN Q ELSE <<"Dims">>)
    [] x = "IdM" -> (CASE c = "id" -> <<c>> [] c = "td" -> Q [] OTHER -> N)
    [] x = "IdN" -> (CASE c = "id" -> <<"#decl", c>> [] c = "td" -> Q [] OTHER -> N)
    [] x = "Dims" -> (CASE c = "[" -> <<c, "OptDim", "]", "Dims">> [] OTHER -> <<>>)
    [] x = "OptDim" -> (IF c = "]" THEN <<>> ELSE <<"Expr">>)
    [] x = "FnPar" -> (CASE c = "(" -> <<"#push", "(", "Params", ")", "#pop">> [] c = "[" -> Q [] OTHER -> <<>>)
    [] x = "Params" -> (CASE c = ")" -> <<>> [] c = "..." -> <<c>> [] OTHER -> <<"Spec", "ParD">>)
    [] x = "ParD" -> (IF c = ")" THEN <<>> ELSE <<"ParN", "ParM">>)
    [] x = "ParN" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "ParN">> [] c = "(" -> <<c, "*", "ParI", ")", "FnPar">> [] c = "id" -> <<"#decl", c, "ParT">> [] c = "td" -> Q [] OTHER -> <<"ParT">>)
    [] x = "ParI" -> (IF c = "id" THEN <<"#decl", c>> ELSE <<>>)
    [] x = "ParT" -> (IF c = "(" THEN Q ELSE <<"Dims">>)
    [] x = "ParM" -> (IF c = "," THEN <<c, "Params">> ELSE <<>>)
    [] x = "Abs" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "Abs">> [] c = "(" -> <<c, "*", ")", "FnPar">> [] OTHER -> <<"Dims">>)
    [] x = "St" ->
         (CASE c = "{" -> <<"#push", "{", "Sts", "}", "#pop">>
            [] c = ";" -> <<";">>
            [] c = "return" -> <<c, "OptE", ";">>
            [] c = "break" -> <<"#break", c, ";">>
            [] c = "continue" -> <<"#continue", c, ";">>
            [] c = "goto" -> <<c, "#goto", "id", ";">>
            [] c = "_emit" -> <<c, "Expr">>
            [] c = "if" -> <<c, "(", "Expr", ")", "St", "Else">>
            [] c = "for" -> <<c, "(", "OptE", ";", "OptE", ";", "OptE", ")", "St", "#loop">>
            [] c = "while" -> <<c, "(", "Expr", ")", "St", "#loop">>
            [] c = "do" -> <<c, "St", "#loop", "while", "(", "Expr", ")", ";">>
            [] c = "switch" -> <<c, "(", "Expr", ")", "St", "#switch">>
            [] c = "case" -> <<"#case", c, "Expr", ":", "St">>
            [] c = "default" -> <<"#case", c, ":", "St">>
            [] c \in TypeStart -> <<"#notd", "Spec", "LocA">>
            [] c = "id" -> <<"#id", c, "IdRest">>
            [] OTHER -> <<"Expr", ";">>)
    [] x = "Sts" -> (IF c = "}" THEN <<>> ELSE <<"St", "Sts">>)
    [] x = "Else" -> (IF c = "else" THEN <<c, "St">> ELSE <<>>)
    [] x = "OptE" -> (IF c \in {";", ")"} THEN <<>> ELSE <<"Expr">>)
    [] x = "IdRest" -> (IF c = ":" THEN <<"#label", c, "St">> ELSE <<"#use", "Post", "AsgT", "ExprT", ";">>)
    [] x = "LocA" -> (IF c = ";" THEN <<";">> ELSE <<"LocD">>)
    [] x = "LocD" -> (CASE c \in {"*", "const", "volatile"} -> <<c, "LocD">> [] c = "(" -> <<c, "*", "IdN", ")", "FnPar", "LocI">>
                        [] c = "id" -> <<"#decl", "id", "LocT">> [] c = "td" -> Q [] OTHER -> N)
    [] x = "LocT" -> (IF c = "(" THEN Q ELSE <<"Dims", "LocI">>)
    [] x = "LocI" -> (IF c = "=" THEN <<c, "Asg", "LocM">> ELSE <<"LocM">>)
    [] x = "LocM" -> (CASE c = "," -> <<c, "LocD">> [] c = ";" -> <<c>> [] OTHER -> E)
    [] x = "Expr" -> <<"Asg", "ExprT">>
    [] x = "ExprT" -> (IF c = "," THEN <<c, "Asg", "ExprT">> ELSE <<>>)
    [] x = "Asg" -> <<"Un", "AsgT">>
    [] x = "AsgT" -> (CASE c \in Bin -> <<c, "Asg">> [] c = "??" -> <<c, "Expr", ":", "Asg">> [] OTHER -> <<>>)
    [] x = "Un" -> (CASE c \in UnOp -> <<c, "Un">> [] c = "sizeof" -> <<c, "SizeA">> [] c = "(" -> <<c, "Par">>
                      [] c \in {"num", "str"} -> <<c, "Post">> [] c = "id" -> <<"#id", c, "#use", "Post">>
                      [] c = "va_start" -> <<c, "(", "id", ",", "id", ")", "Post">> [] c = "va_end" -> <<c, "(", "id", ")", "Post">>
                      [] c = "va_arg" -> <<c, "(", "id", ",", "Spec", "Abs", ")", "Post">> [] c = "td" -> Q [] OTHER -> E)
    [] x = "Par" -> (IF c \in TypeStart THEN <<"Spec", "Abs", ")", "Un">> ELSE <<"Expr", ")", "Post">>)
    [] x = "SizeA" -> (IF c = "(" THEN <<c, "SizeB">> ELSE <<"Un">>)
    [] x = "SizeB" -> (IF c \in TypeStart THEN <<"Spec", "Abs", ")">> ELSE <<"Asg", "SizeC", ")", "SizeD">>)
    [] x = "SizeC" -> (IF c = "," THEN Q ELSE <<>>)
    [] x = "SizeD" -> (IF c \in Postfix THEN Q ELSE <<>>)
    [] x = "Post" -> (CASE c = "(" -> <<c, "Args", ")", "Post">> [] c = "[" -> <<c, "Expr", "]", "Post">> [] c \in {".", "->"} -> <<c, "Name", "Post">>
                        [] c \in {"++", "--"} -> <<c, "Post">> [] OTHER -> <<>>)
    [] x = "Name" -> (IF c \in {"id", "td"} THEN <<c>> ELSE E)
    [] x = "Args" -> (IF c = ")" THEN <<>> ELSE <<"Asg", "ArgM">>)
    [] x = "ArgM" -> (IF c = "," THEN <<c, "Args">> ELSE <<>>)

Nonterm == {"Prog", "Ext", "ExtA", "ExtD", "ExtT", "FnRest", "VarRest", "VarMore", "ExtV", "ExtW", "Spec", "Spec2", "EnumA", "EnumB", "Enums", "EnumI", "EnumM",
            "StructA", "StructB", "Members", "MemD", "MemM", "MemN", "MemT", "IdM", "IdN", "Dims", "OptDim", "FnPar", "Params", "ParD", "ParN", "ParI", "ParT", "ParM", "Abs", "St", "Sts",
            "Else", "OptE", "IdRest", "LocA", "LocD", "LocT", "LocI", "LocM", "Expr", "ExprT", "Asg", "AsgT", "Un", "Par", "SizeA", "SizeB", "SizeC", "SizeD",
            "Post", "Name", "Args", "ArgM"}
Acts == {"#notd", "#istd", "#decl", "#enum", "#push", "#pop", "#fn", "#endfn", "#break", "#continue", "#goto", "#loop", "#switch", "#case", "#id", "#label", "#use"}

\* sc: scopes, innermost last, each a set of <<name, is it a type>>; und: undeclared names used; td: declaring types; last: the last identifier
P0 == [st |-> <<"Prog">>, i |-> 0, r |-> "ok", at |-> 0, sc |-> <<{}>>, und |-> {}, td |-> FALSE, last |-> <<>>, gt |-> {}, lb |-> {}, dead |-> FALSE, rule |-> ""]

Lookup(sc, n) == LET k == SelectLastInSeq(sc, LAMBDA s : <<n, TRUE>> \in s \/ <<n, FALSE>> \in s) IN IF k = 0 THEN "none" ELSE IF <<n, TRUE>> \in sc[k] THEN "td" ELSE "var"
Declare(p, n, td) == [p EXCEPT !.sc[Len(p.sc)] = (@ \ {<<n, TRUE>>, <<n, FALSE>>}) \cup {<<n, td>>}]
Fail(p, rule) == [p EXCEPT !.r = "error", !.at = p.i, !.rule = rule]

Act(p, a, t) ==
  LET q == [p EXCEPT !.st = Tail(@)]
      has(m) == m \in {p.st[j] : j \in 1..Len(p.st)}
  IN CASE a = "#notd" -> [q EXCEPT !.td = FALSE]
       [] a = "#istd" -> [q EXCEPT !.td = TRUE]
       [] a = "#decl" -> Declare(q, t.s, p.td)
       [] a = "#enum" -> Declare(q, t.s, FALSE)
       [] a = "#push" -> [q EXCEPT !.sc = Append(@, {}), !.td = FALSE]
       [] a = "#pop" -> [q EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]
       [] a = "#fn" -> [q EXCEPT !.gt = {}, !.lb = {}, !.dead = FALSE]
       [] a = "#endfn" -> IF p.gt \subseteq p.lb THEN q ELSE Fail(q, "label")
       [] a = "#break" -> IF has("#loop") \/ has("#switch") THEN q ELSE Fail(q, "break")
       [] a = "#continue" -> IF has("#loop") THEN q ELSE Fail(q, "continue")
       [] a = "#case" -> IF has("#switch") THEN q ELSE Fail(q, "case")
       [] a = "#goto" -> [q EXCEPT !.gt = @ \cup {t.s}]
       [] a = "#id" -> [q EXCEPT !.last = t.s]
       [] a = "#label" -> IF p.last \in p.lb THEN Fail(q, "twice") ELSE [q EXCEPT !.lb = @ \cup {p.last}]
       [] a = "#use" -> IF Lookup(p.sc, p.last) = "none" /\ ~p.dead THEN [q EXCEPT !.und = @ \cup {p.last}] ELSE q
       [] OTHER -> q

RECURSIVE Reduce(_, _, _)
\* expand until the token is consumed or there is an error
Reduce(p, t, c0) ==
  IF p.r # "ok" THEN p
  ELSE IF p.st = <<>> THEN (IF c0 = "eof" THEN p ELSE Fail(p, "syntax"))
  ELSE LET x == p.st[1]
           c == IF c0 = "id" /\ Lookup(p.sc, t.s) = "td" THEN "td" ELSE c0
       IN IF x \in Acts THEN Reduce(Act(p, x, t), t, c0)
          ELSE IF x \in Nonterm THEN
            LET e == Expand(x, c)
            IN IF e = E THEN Fail(p, "syntax")
               ELSE IF e = N THEN Fail(p, "name")
               ELSE IF e = Q THEN [p EXCEPT !.r = "skip", !.at = p.i]
               ELSE Reduce([p EXCEPT !.st = e \o Tail(@)], t, c0)
          ELSE IF x = c \/ (x = "id" /\ c0 = "id") THEN [p EXCEPT !.st = Tail(@)]
          ELSE Fail(p, "syntax")

\* code that is never reached may use undeclared names: only those before anything that could make code unreachable count
DeadMaker == {"return", "goto", "break", "continue", "sizeof", "??", "if", "while", "for", "do", "switch"}
PStep(p, t) == IF p.r # "ok" THEN p ELSE LET q == [p EXCEPT !.i = @ + 1, !.dead = @ \/ Class(t) \in DeadMaker \/ t.s \in {<<38,38>>, <<124,124>>}] IN IF Class(t) = "eof" /\ q.st = <<>> THEN q ELSE Reduce(q, t, Class(t))
Parse(ts) == FoldLeft(PStep, P0, ts \o <<EofT>>)

--------------------------------------------------------------------------
(* A case: text, exit code, reported line (0: none), whether output was written, first byte that differs from a valid program *)
\* the bad tokens of the language itself are errors at their line
RuleLine(lx, p, ts) ==
  LET n == Len(ts)
      ln(i) == IF i > n THEN lx.ln ELSE ts[i].ln
  IN <<ln(p.at), IF p.rule = "name" THEN lx.ln ELSE ln(p.at + 1)>>

Judge(c) ==
  LET lx == Lex(c.b)
      ts == lx.t
      p == Parse(ts)
      lo == c.lo                                 \* the line of the first change: nothing before it is wrong
      clean == c.rc = 1 /\ ~c.out /\ c.line >= lo
      lim == RuleLine(lx, p, ts)
      globals == {x[1] : x \in p.sc[1]}
  IN CASE c.rc \notin {0, 1} -> <<"mismatch", "crash", p.at>>
       [] c.rc = 1 /\ c.out -> <<"mismatch", "output written", p.at>>
       [] c.rc = 1 /\ (c.line < lo \/ c.line > lx.ln) -> <<"mismatch", "line", c.line, lo, lx.ln, "outside">>
       [] lx.bad # 0 -> IF c.rc = 1 /\ c.line <= lx.ln THEN <<"ok", "token">> ELSE <<"mismatch", "accepted", lx.bad>>
       [] p.r = "skip" -> <<"unjudged", "liberal", lim[1], p.st[1]>>
       [] p.r = "error" /\ c.rc = 0 -> <<"mismatch", "accepted", lim[1], p.rule>>
       [] p.r = "error" /\ c.line > lim[2] -> <<"mismatch", "line", c.line, lim[1], lim[2]>>
       [] p.r = "error" -> <<"ok", p.rule>>
       [] p.und \ globals # {} /\ c.rc = 0 -> <<"mismatch", "accepted undeclared", lx.ln>>
       [] c.base /\ c.rc # 0 -> <<"mismatch", "rejected", c.line>>
       [] OTHER -> <<"ok", IF c.rc = 0 THEN "accepted" ELSE IF p.und \ globals # {} THEN "undeclared" ELSE "other">>

Init == pid \in 1..Len(Cases) /\ res = "run"
Next == /\ res = "run"
        /\ LET v == Judge(Cases[pid]) IN PrintT(<<"VERDICT", pid, v>>) /\ res' = v[1]
        /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars
=============================================================================
