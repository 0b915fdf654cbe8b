-------------------------------- MODULE LexSmall --------------------------------
(* The smaller notations: diff, plain text, TeX, EBNF.                            *)
EXTENDS Lex

--------------------------------------------------------------------------------
(* diff: each line is of one kind, told by how it starts.                         *)

DiffKind(i, e) ==
  LET c == At(i)
  IN CASE c = 45 -> IF HasUpTo(i, W("--- "), e) THEN "diff_heading" ELSE "diff_deletion"
       [] c = 43 -> IF HasUpTo(i, W("+++ "), e) THEN "diff_heading" ELSE "diff_insertion"
       [] c = 42 -> IF HasUpTo(i, W("*** "), e) \/ SpanTo(i, {42}, e) = e THEN "diff_heading" ELSE "diff_common"
       [] c = 33 -> "diff_modification"
       [] c = 64 -> IF HasUpTo(i, W("@@ "), e) THEN "diff_heading_hunk" ELSE "diff_common"
       [] OTHER -> "diff_common"

DiffStep ==
  LET e == CrLineEnd(p)
  IN To(SkipEol(e), mode, Kr(p, e, IF e > p THEN DiffKind(p, e) ELSE ""))

(* Plain text has no highlights. *)
TxtStep == Skip(N - p)

--------------------------------------------------------------------------------
(* TeX and LaTeX: commands, escapes, groups, special characters.                  *)

TexSpecial == Chars("~%$#&^_@")
TexStep ==
  LET c == At(p)
      e == Span(p + 1, Alpha)
  IN CASE c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c = Bs -> (IF p + 1 = N THEN Go(1, "error")
                     ELSE IF e > p + 1 THEN Go(e - p, "markup_tag")
                     ELSE Go(1 + CpLen(p + 1), "string_escape"))
       [] c \in TexSpecial -> Go(1, "symbol_op")
       [] OTHER -> Skip(1)

--------------------------------------------------------------------------------
(* EBNF (ISO 14977, with "-" inside of names).  mode: <<side, inside a name>>;    *)
(* the left side of a rule declares the name, the right side uses it.             *)

EbnfInit == <<"left", FALSE>>
EbnfStep ==
  LET c == At(p)
      ty == IF mode[1] = "left" THEN "name_nonterminal_decl" ELSE "name_nonterminal"
      right(ks, len) == To(p + len, <<"right", FALSE>>, ks)
      rgo(len, y) == right(K(p, len, y), len)
      str == Delimited(p, 1, <<c>>, "string", "string_delim")
      com == Delimited(p, 2, W("*)"), "comment", "comment_delim")
      hyphen == mode[2] /\ p > 0 /\ t[p] \in Word \cup {45}
  IN CASE c \in Chars(",!|") -> rgo(1, "symbol_op")
       [] c = 42 -> IF Has(p, W("*)")) THEN Go(2, "comment_delim") ELSE rgo(1, "symbol_op")
       [] c = 47 -> IF Has(p, W("/)")) THEN rgo(2, "symbol_parens") ELSE rgo(1, "symbol_op")
       [] c = 58 -> IF Has(p, W(":)")) THEN rgo(2, "symbol_brace") ELSE rgo(1, "symbol_op")
       [] c \in Chars("[]") -> rgo(1, "symbol_square")
       [] c \in Chars("{}") -> rgo(1, "symbol_brace")
       [] c \in Chars("'\"`") -> right(str.k, str.e - p)
       [] c \in Chars(";.") -> To(p + 1, <<"left", FALSE>>, K(p, 1, "symbol_punc"))
       [] c = 61 -> rgo(1, "symbol_punc")
       [] c \in {32, 9, 13, 10, 11} -> Skip(1)
       [] c = 40 -> (IF Has(p, W("(*")) THEN To(com.e, mode, com.k)
                     ELSE IF Has(p, W("(:")) THEN rgo(2, "symbol_brace")
                     ELSE IF Has(p, W("(/")) THEN rgo(2, "symbol_parens")
                     ELSE rgo(1, "symbol_parens"))
       [] c = 41 -> rgo(1, "symbol_parens")
       [] c = 63 -> LET e == Min2(Find(p + 1, {63}) + 1, N) IN rgo(e - p, "name_macro")
       [] c \in Digit -> GoF(1, IF mode[2] THEN ty ELSE "number")
       [] c \in Alpha \cup {95} -> To(p + 1, <<mode[1], TRUE>>, IF mode[2] THEN KF(p, 1, ty) ELSE K(p, 1, ty))
       [] c = 45 -> IF hyphen THEN GoF(1, ty) ELSE rgo(1, "symbol_op")
       [] OTHER -> GoF(1, "error")

================================================================================
