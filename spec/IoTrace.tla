-------------------------------- MODULE IoTrace ---------------------------------
(* Recorded calls which load files:                                                  *)
(* [k |-> function, open |-> whether there is such a file, reads |-> what the system  *)
(*  did, c |-> the content, pre |-> what was in the vector before, res |-> result,    *)
(*  out |-> what is in it afterwards, or the chunks one after the other].             *)
(* UTF-8 is checked one code point at a time.                                         *)
EXTENDS Io, TLC, Json, IOUtils
U == INSTANCE Utf8
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, i, valid, v
vars == <<r, i, valid, v>>
R == Rec[r]
Utf == R.k \in {"utf8_append", "utf8", "utf8_or_error"}
Appends == R.k \in {"bytes", "utf8_append", "utf8_or_error"}

Init == r \in 1 .. Len(Rec) /\ i = 1 /\ valid = TRUE /\ v = "run"
Scan == /\ v = "run" /\ Utf /\ valid /\ i <= Len(R.c)
        /\ LET s == SubSeq(R.c, i, IF i + 3 <= Len(R.c) THEN i + 3 ELSE Len(R.c))
               d == U!Decode(s)
           IN valid' = (U!Error(s) = 0) /\ i' = i + d[3]
        /\ UNCHANGED <<r, v>>
Load == Loaded(R.open = 1, R.reads)
Content == IF R.open = 1 THEN SubSeq(R.c, 1, Total(R.reads)) ELSE <<>>
Expected ==
  IF Load # Fine THEN Load
  ELSE IF Utf /\ ~valid THEN Corrupted
  ELSE IF R.k = "utf32" /\ Len(R.c) % 4 # 0 THEN Corrupted
  ELSE Fine
Before == IF Appends THEN R.pre ELSE <<>>
Ok ==
  /\ IF R.k = "utf8_or_error" THEN (R.res = Fine) = (Expected = Fine) /\ (R.said = 1) = (Expected # Fine) ELSE R.res = Expected
  /\ R.res = Fine => R.out = Before \o Content /\ SawEnd(R.reads)
  /\ R.k = "chunked" => IsPrefix(R.out, Content)
  /\ Appends => IsPrefix(Before, R.out)
Judge == /\ v = "run" /\ (~Utf \/ ~valid \/ i > Len(R.c)) /\ UNCHANGED <<r, i, valid>>
         /\ v' = "done" /\ IF Ok THEN TRUE ELSE PrintT(<<"REJECT", r, R.k>>)
Next == Scan \/ Judge
Spec == Init /\ [][Next]_vars
================================================================================
