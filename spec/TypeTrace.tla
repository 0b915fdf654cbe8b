------------------------------- MODULE TypeTrace -------------------------------
(* Validates the recorded names of highlight types, and their use by the themes  *)
(* and by the script that turns themes into style sheets.                         *)
EXTENDS HighlightTypes, Sequences, FiniteSets, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)

(* The design: no two types share a name, and names are made of the documented characters. *)
Longs  == { TypeTable[i].long : i \in DOMAIN TypeTable }
Shorts == { TypeTable[i].short : i \in DOMAIN TypeTable }
ASSUME Cardinality(Longs) = Len(TypeTable)
ASSUME Cardinality(Shorts) = Len(TypeTable)
ASSUME Cardinality(TypeValues) = Len(TypeTable)
VARIABLES k, verdict
vars == <<k, verdict>>
R == Rec[k]

TypeOk == /\ R.same = 1 /\ R.nul = 1
          /\ IF R.v \in TokenTypes THEN R.long = LongName[R.v] /\ R.short = ShortName[R.v]
             ELSE R.long = "" /\ R.short = ""

Types == { i \in DOMAIN Rec : Rec[i].k = "type" /\ Rec[i].v \in TokenTypes }
RecLongs == { Rec[i].long : i \in Types }

(* A key of a theme is a long name, or one of the two special keys. *)
ThemeOk == R.key \in RecLongs \cup {"background", "foreground"}

(* The script maps each long name to the short name. *)
ScriptOk == \E i \in Types : Rec[i].long = R.long /\ Rec[i].short = R.short

Complete == /\ { Rec[i].v : i \in { j \in DOMAIN Rec : Rec[j].k = "type" } } = 0 .. 255
            /\ { Rec[i].long : i \in { j \in DOMAIN Rec : Rec[j].k = "script" } } = RecLongs
            /\ Cardinality(RecLongs) = Cardinality(TokenTypes)

Ok == CASE R.k = "type"   -> TypeOk
        [] R.k = "theme"  -> ThemeOk
        [] R.k = "script" -> ScriptOk
        [] R.k = "done"   -> Complete

Init == k \in 1 .. Len(Rec) /\ verdict = "asked"
Answer == verdict = "asked" /\ Ok /\ verdict' = "allowed" /\ UNCHANGED k
Reject == /\ verdict = "asked" /\ ~Ok
          /\ PrintT(<<"REJECT", k>>)
          /\ verdict' = "rejected" /\ UNCHANGED k
Spec == Init /\ [][Answer \/ Reject]_vars
================================================================================
