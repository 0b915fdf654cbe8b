------------------------------- MODULE Session -------------------------------
(* The highlighting API of ulight as a state machine.                          *)
(*                                                                              *)
(* A session is a sequence of calls made for one source text and one language.  *)
(* A call has an operation ("tok": highlight to tokens, "html": highlight to    *)
(* HTML), flags and buffer sizes; while it runs, the library appends tokens to   *)
(* the buffer (Emit), hands the buffer to the user when it is full (FlushFull)   *)
(* and once more at the end (FlushLast), and returns (Return).  There is no      *)
(* action for a crash, a hang, a token outside of the source, a partial flush in  *)
(* the middle, a token delivered after the return, ...                            *)
(*                                                                              *)
(* What a call delivers is remembered in `memo`: later calls of the session with *)
(* the same flags have to deliver the same, whatever their buffer sizes, and     *)
(* calls with other flags have to deliver what the flags say.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, HighlightTypes

Coalesce == 1
Strict   == 2

VARIABLES
    src,     \* the source: [n |-> length, cont |-> set of offsets inside of code points,
             \*              neutral |-> the language ignores the strict flag]
    phase,   \* "idle" between calls, "run" while tokens arrive, "fin" after the last flush
    call,    \* parameters of the current call [op, flags, cap]
    pos,     \* end of the last token of the current call
    fill,    \* tokens in the buffer
    out,     \* tokens delivered or buffered by the current call
    memo     \* flags -> tokens, for the calls that have returned

vars == <<src, phase, call, pos, fill, out, memo>>

Tok(b, l, ty) == <<b, l, ty>>

--------------------------------------------------------------------------------
(* Merging maximal runs of touching tokens of equal type. *)
RECURSIVE MergeFrom(_, _, _)
MergeFrom(t, i, acc) ==
    IF i > Len(t) THEN acc
    ELSE LET last == acc[Len(acc)] IN
         IF Len(acc) > 0 /\ last[3] = t[i][3] /\ last[1] + last[2] = t[i][1]
         THEN MergeFrom(t, i + 1, [acc EXCEPT ![Len(acc)] = <<last[1], last[2] + t[i][2], last[3]>>])
         ELSE MergeFrom(t, i + 1, Append(acc, t[i]))
Merge(t) == MergeFrom(t, 1, <<>>)

HasFlag(f, b) == (f \div b) % 2 = 1

(* What the flags promise about two results for the same source. *)
Consistent(f, t, m) ==
    \A g \in DOMAIN m :
        /\ g = f /\ ~HasFlag(f, Coalesce) => t = m[g]
        /\ HasFlag(f, Coalesce) /\ (g = f \/ g = f - Coalesce) =>
              t = Merge(m[g])
        /\ src.neutral /\ f % 2 = g % 2 /\ ~HasFlag(f, Coalesce) => t = m[g]

--------------------------------------------------------------------------------
Init0(s) ==
    /\ src = s
    /\ phase = "idle"
    /\ call = [op |-> "none", flags |-> 0, cap |-> 0]
    /\ pos = 0
    /\ fill = 0
    /\ out = <<>>
    /\ memo = <<>>

Begin(op, flags, cap) ==
    /\ phase = "idle"
    /\ cap > 0
    /\ phase' = "run"
    /\ call' = [op |-> op, flags |-> flags, cap |-> cap]
    /\ pos' = 0 /\ fill' = 0 /\ out' = <<>>
    /\ UNCHANGED <<src, memo>>

WellFormed(b, l, ty) ==
    /\ l > 0
    /\ b >= pos
    /\ b + l <= src.n
    /\ ty \in TokenTypes
    /\ b \notin src.cont
    /\ (b + l) \notin src.cont

Emit(b, l, ty) ==
    /\ phase = "run"
    /\ fill < call.cap
    /\ WellFormed(b, l, ty)
    /\ out' = Append(out, Tok(b, l, ty))
    /\ pos' = b + l
    /\ fill' = fill + 1
    /\ UNCHANGED <<src, phase, call, memo>>

(* The buffer is handed over when it is full and another token arrives ... *)
FlushFull(n) ==
    /\ phase = "run"
    /\ n = fill /\ fill = call.cap
    /\ fill' = 0
    /\ UNCHANGED <<src, phase, call, pos, out, memo>>

(* ... and at the end, if it is not empty. *)
FlushLast(n) ==
    /\ phase = "run"
    /\ n = fill /\ fill > 0
    /\ fill' = 0
    /\ phase' = "fin"
    /\ UNCHANGED <<src, call, pos, out, memo>>

Return(status) ==
    /\ phase \in {"run", "fin"}
    /\ fill = 0
    /\ status = 0
    /\ call.op = "tok" => Consistent(call.flags, out, memo)
    /\ phase' = "idle"
    /\ memo' = IF call.flags \in DOMAIN memo THEN memo
               ELSE memo @@ (call.flags :> out)
    /\ pos' = 0 /\ out' = <<>>
    /\ UNCHANGED <<src, call, fill>>

--------------------------------------------------------------------------------
(* Invariants of the machine. *)
Ordered(t) == \A i \in 1 .. Len(t) - 1 : t[i][1] + t[i][2] <= t[i + 1][1]

TypeOK ==
    /\ phase \in {"idle", "run", "fin"}
    /\ fill \in 0 .. (IF call.cap = 0 THEN 0 ELSE call.cap)
    /\ pos \in 0 .. src.n

StreamOrdered == Ordered(out) /\ \A f \in DOMAIN memo : Ordered(memo[f])
StreamInside  == \A i \in DOMAIN out : out[i][1] + out[i][2] <= src.n /\ out[i][2] > 0
NothingLost   == phase = "idle" => fill = 0

================================================================================
