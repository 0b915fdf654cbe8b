------------------------------ MODULE LookupTrace ------------------------------
(* Validates recorded lookups, display names and the list of names.              *)
EXTENDS Languages, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Entries == { i \in DOMAIN Rec : Rec[i].k = "entry" }
EntryNames == { Rec[i].name : i \in Entries }

VARIABLES k, verdict
vars == <<k, verdict>>
R == Rec[k]

(* Eight results (four by name, four by path) for each of four texts behind the string. *)
LookupOk ==
    LET byName == Lookup(R.s)
        byPath == FromPath(R.s)
        \* names added to the list are fine as long as they do not change the ones there are
        added == R.s \in EntryNames /\ R.s \notin Known
    IN /\ Len(R.r) = 32
       /\ \A j \in 1 .. 32 :
            IF (j - 1) % 8 < 4
            THEN IF added THEN R.r[j] = R.r[1] /\ R.r[j] \in 1 .. LangCount - 1 ELSE R.r[j] = byName
            ELSE \/ R.r[j] = byPath
                 \/ byPath = None /\ R.r[j] = R.r[5] /\ \E e \in Entries :
                       /\ Rec[e].l = R.r[j] /\ Rec[e].name \notin Known
                       /\ Len(R.s) > Len(Rec[e].name)
                       /\ SubSeq(R.s, Len(R.s) - Len(Rec[e].name), Len(R.s)) = <<46>> \o Rec[e].name

DisplayOk ==
    /\ R.same = 1 /\ R.nul = 1
    /\ IF R.l \in 1 .. LangCount - 1 THEN R.name = DisplayNames[R.l] ELSE R.name = ""

(* The list is sorted, free of duplicates, null-terminated, and says what lookup says. *)
EntryOk ==
    /\ R.nul = 1
    /\ R.l \in 1 .. LangCount - 1
    /\ R.name \in Known => Lookup(R.name) = R.l
    /\ \A e \in Entries : Rec[e].n = R.n + 1 => Less(R.name, Rec[e].name)

Complete == Known \subseteq EntryNames

Ok == CASE R.k = "lookup" -> LookupOk
        [] R.k = "lang"   -> DisplayOk
        [] R.k = "entry"  -> EntryOk
        [] R.k = "done"   -> Complete /\ Cardinality({ i \in DOMAIN Rec : Rec[i].k = "lang" }) = 265

Init == k \in 1 .. Len(Rec) /\ verdict = "asked"
Answer == verdict = "asked" /\ Ok /\ verdict' = "allowed" /\ UNCHANGED k
Reject == /\ verdict = "asked" /\ ~Ok
          /\ PrintT(<<"REJECT", k>>)
          /\ verdict' = "rejected" /\ UNCHANGED k
Spec == Init /\ [][Answer \/ Reject]_vars
================================================================================
