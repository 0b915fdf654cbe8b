---------------------------------- MODULE Cli -----------------------------------
(* The command-line program: arguments, the language by the path of the input, the   *)
(* input, the output, the highlighting.  Recorded runs:                               *)
(* [n |-> number of arguments, name |-> path of the input, there |-> whether it can   *)
(*  be read, c |-> its content, to |-> "stdout", "file" or "nowhere" (cannot be       *)
(*  opened), room |-> how many bytes can be written (-1: as many as you like),        *)
(*  before |-> what the file contained, had |-> whether it existed, html |-> the HTML *)
(*  of the library for this content and language, so |-> standard output,             *)
(*  se |-> whether anything was said on standard error, file |-> the file afterwards,  *)
(*  has |-> whether there is one, exit |-> status].                                    *)
EXTENDS Languages, Json, IOUtils
U == INSTANCE Utf8
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, phase
vars == <<r, i, phase>>
R == Rec[r]
Init == r \in 1 .. Len(Rec) /\ i = 1 /\ phase = "arguments"
Go(p) == phase' = p /\ UNCHANGED <<r, i>>
Arguments == phase = "arguments" /\ Go(IF R.n < 1 THEN "refused" ELSE "language")
Language == phase = "language" /\ Go(IF FromPath(R.name) = None THEN "refused" ELSE "input")
Input == phase = "input" /\ Go(IF R.there = 1 THEN "decode" ELSE "refused")
Decode ==
  /\ phase = "decode"
  /\ IF i > Len(R.c) THEN Go("output")
     ELSE LET s == SubSeq(R.c, i, IF i + 3 <= Len(R.c) THEN i + 3 ELSE Len(R.c))
          IN IF U!Error(s) = 0 THEN i' = i + U!Decode(s)[3] /\ UNCHANGED <<r, phase>> ELSE Go("refused")
Output == phase = "output" /\ Go(IF R.to = "nowhere" THEN "refused" ELSE "write")
Write == phase = "write" /\ Go(IF R.room < 0 \/ R.room >= Len(R.html) THEN "written" ELSE "cut")

Untouched == R.has = R.had /\ R.file = R.before
Written == IF R.to = "file" THEN R.file ELSE R.so
Quiet == IF R.to = "file" THEN R.so = <<>> ELSE Untouched
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Refusal == R.exit # 0 /\ R.se = 1 /\ R.so = <<>> /\ Untouched
Success == R.exit = 0 /\ R.se = 0 /\ Quiet /\ Written = R.html
(* What could not be written is not passed over in silence. *)
Cut == R.exit # 0 /\ R.se = 1 /\ Quiet /\ (R.seen = 1 => Prefix(Written, R.html))
End == /\ phase \in {"refused", "written", "cut"}
       /\ Go("done")
       /\ LET ok == CASE phase = "refused" -> Refusal [] phase = "written" -> Success [] OTHER -> Cut
          IN IF ok THEN TRUE ELSE PrintT(<<"REJECT", r, phase>>)
Next == Arguments \/ Language \/ Input \/ Decode \/ Output \/ Write \/ End
Spec == Init /\ [][Next]_vars
================================================================================
