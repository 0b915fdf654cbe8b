------------------------------ MODULE StrictTrace ------------------------------
(* Two highlightings of one text, without and with the strict flag:                *)
(* [l |-> language, t |-> code units, a |-> loose tokens, b |-> strict tokens].    *)
(* Outside of C, C++ and JSON they are the same.  In C and C++ the only difference *)
(* is that keywords which the standard of the language does not have are names.    *)
(* In JSON they are the same up to the first comment (errors before it may go on   *)
(* into it), and the strict one has no comments.                                   *)
EXTENDS LexCpp, TLC, Json, IOUtils

VARIABLES r, i, verdict
T == ndJsonDeserialize(IOEnv.TRACE)
R == T[r]
vars == <<r, i, verdict, t, p, mode, out, strict, lim, floor>>

UnC == CppExt
UnCpp == CppExt \cup CppOnlyC
Unstandard(w) == IF R.l = "c" THEN w \in UnC ELSE w \in UnCpp
IsName(ty) == ty \in {"name", "name_type", "name_macro", "name_var", "name_function", "string_decor", "number_decor"}
IsComment(ty) == ty \in {"comment", "comment_delim", "comment_doc", "comment_doc_delim"}
Spelling(x) == SubSeq(R.t, x[1] + 1, x[1] + x[2])

\* the i-th tokens of both
SameC(x, y) == x = y \/ (x[1] = y[1] /\ x[2] = y[2] /\ Unstandard(Spelling(x)) /\ x[3] = CppKind(Spelling(x)) /\ IsName(y[3]))
\* a keyword of an extension stays no keyword
StrictC(y) == Unstandard(Spelling(y)) => y[3] # CppKind(Spelling(y))

Init ==
  /\ r \in 1 .. Len(T) /\ i = 1 /\ verdict = "run"
  /\ t = <<>> /\ p = 0 /\ mode = "" /\ out = <<>> /\ strict = 0 /\ lim = 0 /\ floor = 0
Na == Len(R.a)
Nb == Len(R.b)
Joined == /\ i < Na /\ i <= Nb /\ IsComment(R.a[i + 1][3]) /\ R.a[i][3] = "error" /\ R.b[i][3] = "error"
          /\ R.a[i][1] = R.b[i][1] /\ R.a[i][2] < R.b[i][2]
Ok(c) == /\ verdict' = (IF c THEN "run" ELSE "bad") /\ i' = i + 1
         /\ IF c THEN TRUE ELSE PrintT(<<"REJECT", r, i>>)
End(c) == /\ verdict' = (IF c THEN "ok" ELSE "bad") /\ UNCHANGED i
          /\ IF c THEN TRUE ELSE PrintT(<<"REJECT", r, i>>)
Next ==
  /\ verdict = "run" /\ UNCHANGED <<r, t, p, mode, out, strict, lim, floor>>
  /\ IF R.l = "json" THEN
       IF (i <= Na /\ IsComment(R.a[i][3])) \/ Joined THEN End(\A j \in 1 .. Nb : ~IsComment(R.b[j][3]))
       ELSE IF i <= Na /\ i <= Nb THEN Ok(R.a[i] = R.b[i])
       ELSE End(Na = Nb)
     ELSE IF i <= Na /\ i <= Nb
     THEN Ok(IF R.l \in {"c", "cpp"} THEN SameC(R.a[i], R.b[i]) /\ StrictC(R.b[i]) ELSE R.a[i] = R.b[i])
     ELSE End(Na = Nb)
Spec == Init /\ [][Next]_vars
================================================================================
