-------------------------------- MODULE LexBash --------------------------------
(* Bash: words, quotes and substitutions.  mode: <<state, frames>>; state tells   *)
(* whether a command or an argument is expected ("cmd0", "arg0") or being read    *)
(* ("cmd", "arg"), or "param" inside of "${"; frames: what has been opened,       *)
(* <<kind, the state outside>>.                                                   *)
EXTENDS Lex

BashInit == <<"cmd0", << <<"file", "">> >> >>
BashWhite == {32, 9, 11, 13, 10}
BashEnd == {Bs, Sq, Dq} \cup BashWhite \cup Chars("|&;()<>")
BashSpecial == Chars("*@#?-$!0123456789")
BashSubst(i) == At(i) = 36 /\ At(i + 1) \in Chars("({_") \cup Alpha \cup BashSpecial
RECURSIVE BashWordEnd(_, _)
BashWordEnd(i, k) ==
  IF i >= N \/ At(i) \in BashEnd \/ BashSubst(i) \/ (k = "param" /\ At(i) = 125) THEN i ELSE BashWordEnd(i + 1, k)
RECURSIVE BashDqEnd(_)
BashDqEscape(i) == At(i) = Bs /\ At(i + 1) \in Chars("'$`\"\\") \cup {LF}
BashDqEnd(i) == IF i >= N \/ At(i) = Dq \/ BashDqEscape(i) \/ BashSubst(i) THEN i ELSE BashDqEnd(i + 1)
BashOps == Ws({"&&", "&>>", "&>", "&", ";", "<<<", "<<", "<&", "<>", "<", ">>", ">&", ">", "||", "|"})
BashCont(st) == CASE st = "cmd0" -> "cmd" [] st = "arg0" -> "arg" [] OTHER -> st

BashStep ==
  LET c == At(p)
      st == mode[1]
      fr == mode[2]
      top == fr[Len(fr)]
      kind == top[1]
      outer == SubSeq(fr, 1, Len(fr) - 1)
      in(s) == <<s, fr>>
      cont == in(BashCont(st))
      command == in(IF st = "param" THEN st ELSE "cmd0")
      push(k, s, ks, n) == To(p + n, <<s, Append(fr, <<k, st>>)>>, ks)
      open(k, s, n) == push(k, s, K(p, n, "string_interpolation_delim"), n)
      back(ks, n) == To(p + n, <<BashCont(top[2]), outer>>, ks)
      close(n) == back(K(p, n, "string_interpolation_delim"), n)
      id == Span(p + 1, Word)
      subst == IF At(p + 1) = 123 THEN open("param", "param", 2)
               ELSE IF Has(p, W("$((")) THEN open("arith", "cmd0", 3)
               ELSE IF At(p + 1) = 40 THEN open("command", "cmd0", 2)
               ELSE IF At(p + 1) \in BashSpecial THEN To(p + 2, cont, K(p, 2, "string_interpolation"))
               ELSE To(id, cont, Kr(p, id, "string_interpolation"))
      we == BashWordEnd(p, kind)
      word == To(we, cont, Kr(p, we, CASE st \in {"cmd0", "cmd"} -> "name_shell_command"
                                       [] st = "arg0" -> (IF c = 45 THEN "name_shell_option" ELSE "string")
                                       [] st = "arg" -> "string"
                                       [] st = "param" -> "string_interpolation"))
      sq == Find(p + 1, {Sq})
      op == Longest(p, 3, BashOps)
      redirects == \E i \in p + 1 .. p + op : t[i] \in {60, 62}
      de == BashDqEnd(p)
  IN IF kind = "dq"
     THEN (IF de > p THEN To(de, mode, Kr(p, de, "string"))
           ELSE IF c = Dq THEN To(p + 1, <<BashCont(st), outer>>, K(p, 1, "string_delim"))
           ELSE IF c = Bs THEN Go(2, "string_escape")
           ELSE subst)
     ELSE CASE c = Bs -> (IF At(p + 1) = LF THEN To(p + 2, mode, K(p, 1, "string_escape"))
                          ELSE LET n == IF p + 1 < N THEN 1 + CpLen(p + 1) ELSE 1 IN To(p + n, cont, K(p, n, "string_escape")))
            [] c = Sq -> (IF sq < N THEN To(sq + 1, cont, K(p, 1, "string_delim") \o Kr(p + 1, sq, "string") \o K(sq, 1, "string_delim"))
                          ELSE To(N, cont, K(p, 1, "string_delim") \o Kr(p + 1, N, "string")))
            [] c = Dq -> push("dq", st, K(p, 1, "string_delim"), 1)
            [] c = 35 -> (IF kind \in {"param", "arith"} \/ st \in {"cmd", "arg"} THEN word
                          ELSE LET x == LineComment(p, 1) IN To(x.e, mode, x.k))
            [] c \in {32, 9} -> To(p + 1, in(IF st \in {"cmd", "arg"} THEN "arg0" ELSE st), << >>)
            [] c \in {11, 13, 10} -> To(p + 1, command, << >>)
            [] c = 36 -> (IF BashSubst(p) THEN subst ELSE word)
            [] c = 40 -> push("shell", "cmd0", K(p, 1, "symbol_parens"), 1)
            [] c = 41 -> (CASE kind = "command" -> close(1)
                            [] kind = "shell" -> To(p + 1, <<IF top[2] = "param" THEN "param" ELSE "arg0", outer>>, K(p, 1, "symbol_parens"))
                            [] kind = "arith" -> (IF Has(p, W("))")) THEN close(2) ELSE Go(1, "symbol_parens"))
                            [] OTHER -> To(p + 1, command, K(p, 1, "symbol_parens")))
            [] c \in Chars("|&;<>") -> To(p + op, IF op = 1 /\ c = 38 THEN mode
                                                ELSE IF redirects /\ st # "param" THEN in("arg0") ELSE command, K(p, op, "symbol_op"))
            [] c = 125 -> (IF kind = "param" THEN close(1) ELSE Go(1, "symbol_brace"))
            [] OTHER -> word

================================================================================
