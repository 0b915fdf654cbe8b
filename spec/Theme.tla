--------------------------------- MODULE Theme ----------------------------------
(* Themes and the style sheets generated for them.  A theme has a palette of named   *)
(* values and variants (light, dark), each of which styles highlight types: with a   *)
(* color or with properties.  A style sheet is a list of rules; of those which apply *)
(* to an element and set a property, the last counts.  For every kind of token and   *)
(* every property, what counts must be what the theme says of the nearest type of    *)
(* those above it which has the property, in each variant.                           *)
(* Recorded: [pal |-> <<name, kind, value>>, var |-> <<variant, <<key, kind, value or *)
(* properties>> >>, how |-> "plain", "named" or "cowel", name |-> of the theme,       *)
(* nobg, nofg |-> options, exit, said |-> standard error used, out |-> anything       *)
(* written, rules |-> <<media, prefix, target, kind of target, declarations>>].       *)
(* Kinds: "s" string, "n" number, "o" object (properties), "x" another.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
Types == JsonDeserialize(IOEnv.TYPES)   \* <<long, short>>
VARIABLES r, c, k, v, d
vars == <<r, c, k, v, d>>
R == Rec[r]

Longs == TLCEval({ Types[i][1] : i \in DOMAIN Types })
Short == TLCEval([l \in Longs |-> Types[CHOOSE i \in DOMAIN Types : Types[i][1] = l][2]])
Starts(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
Bad == [k |-> "bad", s |-> ""]
Val(s) == [k |-> "ok", s |-> s]

(* Values: a string which begins with $ names one of the palette, which may do the same. *)
PaletteNames == { R.pal[i][1] : i \in DOMAIN R.pal }
PaletteAt(n) == R.pal[CHOOSE i \in DOMAIN R.pal : R.pal[i][1] = n]
RECURSIVE Resolve(_, _, _)
Resolve(kind, s, fuel) ==
  IF kind # "s" \/ ~Starts(s, "$") THEN Val(s)
  ELSE LET n == SubSeq(s, 2, Len(s))
       IN IF n \notin PaletteNames \/ fuel = 0 THEN Bad
          ELSE IF PaletteAt(n)[2] # "s" THEN Bad ELSE Resolve("s", PaletteAt(n)[3], fuel - 1)
Fuel == Len(R.pal) + 1

Special == {"background", "foreground"}
Skipped(key) == (key = "background" /\ R.nobg = 1) \/ (key = "foreground" /\ R.nofg = 1)
(* The declarations of an entry <<key, kind, value>>: property to value. *)
Declared(e) ==
  IF e[2] = "o" THEN [p \in { e[3][i][1] : i \in DOMAIN e[3] } |->
                        LET x == e[3][CHOOSE i \in DOMAIN e[3] : e[3][i][1] = p] IN Resolve(x[2], x[3], Fuel)]
  ELSE LET x == IF e[3] = "" THEN Bad ELSE Resolve("s", e[3], Fuel)
       IN IF e[1] = "background" THEN [p \in {"background-color", "border-color"} |-> x] ELSE [p \in {"color"} |-> x]
EntryOk(e) ==
  IF e[1] \in Special /\ e[2] # "s" THEN FALSE
  ELSE IF Skipped(e[1]) THEN TRUE
  ELSE /\ e[1] \in Special \cup Longs
       /\ e[2] \in {"s", "o"}
       /\ LET x == Declared(e) IN \A p \in DOMAIN x : x[p].k = "ok"
ThemeOk == \A i \in DOMAIN R.var : /\ R.var[i][1] \in {"light", "dark"}
                                   /\ \A j \in DOMAIN R.var[i][2] : EntryOk(R.var[i][2][j])

(* The places a style sheet speaks of: <<media query, prefix>>. *)
Media(n) == "(prefers-color-scheme: " \o n \o ")"
Named(n) == "[data-ulight-theme=" \o n \o "-" \o R.name \o "]"
Places(n) == CASE R.how = "plain" -> { <<Media(n), "">> }
               [] R.how = "named" -> { <<"", Named(n)>> }
               [] R.how = "cowel" -> { <<Media(n), "">>, <<"", "html." \o n>> }
AllPlaces == UNION { Places(R.var[i][1]) : i \in DOMAIN R.var }
Variant(n) == R.var[CHOOSE i \in DOMAIN R.var : R.var[i][1] = n][2]

(* What the rules say of a place: the last of those which apply and set a property counts. *)
RECURSIVE Set(_, _, _)
Set(ds, i, acc) == IF i > Len(ds) THEN acc ELSE Set(ds, i + 1, (ds[i][1] :> ds[i][2]) @@ acc)
Applies(u, place, kind, short) == u[1] = place[1] /\ u[2] = place[2] /\ u[4] = kind /\ (kind = "type" => Starts(short, u[3]))
RECURSIVE Css(_, _, _, _, _)
Css(i, place, kind, short, acc) ==
  IF i > Len(R.rules) THEN acc
  ELSE Css(i + 1, place, kind, short, IF Applies(R.rules[i], place, kind, short) THEN Set(R.rules[i][5], 1, acc) ELSE acc)
(* What the theme says: d is the sequence of its entries <<key, short name, declarations>>;  *)
(* entries of longer names win.                                                       *)
Entries(n) == [j \in DOMAIN Variant(n) |-> LET e == Variant(n)[j]
                                          IN <<e[1], IF e[1] \in Special THEN "" ELSE Short[e[1]], IF Skipped(e[1]) THEN <<>> ELSE Declared(e)>>]
IsAbove(e, short) == e[1] \notin Special /\ (e[2] = short \/ Starts(short, e[2] \o "_"))
Concerns(e, kind, short) == IF kind = "type" THEN IsAbove(e, short) ELSE e[1] = kind
RECURSIVE Says(_, _)
Says(S, acc) == IF S = {} THEN acc
                ELSE LET j == CHOOSE x \in S : \A y \in S : Len(d[x][2]) <= Len(d[y][2])
                     IN Says(S \ {j}, [p \in DOMAIN d[j][3] |-> d[j][3][p].s] @@ acc)
Agree(n, kind, short) ==
  LET S == { j \in DOMAIN d : Concerns(d[j], kind, short) }
      said == Says(S, <<>>)
  IN \A place \in Places(n) : Css(1, place, kind, short, <<>>) = said

(* One kind of token after the other. *)
Kinds == << <<"foreground", "foreground">>, <<"background", "background">> >> \o [i \in DOMAIN Types |-> <<"type", Types[i][2]>>]
Init == r \in 1 .. Len(Rec) /\ c = 0 /\ k = 1 /\ v = "start" /\ d = <<>>
Reject(what) == PrintT(<<"REJECT", r, what>>) /\ v' = "bad" /\ UNCHANGED <<r, c, k, d>>
Start == v = "start" /\
  IF ~ThemeOk THEN IF R.exit # 0 /\ R.said = 1 /\ R.out = 0 THEN v' = "ok" /\ UNCHANGED <<r, c, k, d>> ELSE Reject("refusal")
  ELSE IF R.exit # 0 THEN Reject("failure")
  ELSE IF \E i \in DOMAIN R.rules : <<R.rules[i][1], R.rules[i][2]>> \notin AllPlaces THEN Reject("place")
  ELSE v' = "next" /\ UNCHANGED <<r, c, k, d>>
Begin == v = "next" /\
  IF c = Len(R.var) THEN v' = "ok" /\ UNCHANGED <<r, c, k, d>>
  ELSE c' = c + 1 /\ k' = 1 /\ d' = TLCEval(Entries(R.var[c + 1][1])) /\ v' = "run" /\ UNCHANGED r
Check == v = "run" /\
  IF k > Len(Kinds) THEN v' = "next" /\ d' = <<>> /\ UNCHANGED <<r, c, k>>
  ELSE IF Agree(R.var[c][1], Kinds[k][1], Kinds[k][2]) THEN k' = k + 1 /\ UNCHANGED <<r, c, v, d>> ELSE Reject(Kinds[k][2])
Next == Start \/ Begin \/ Check
Spec == Init /\ [][Next]_vars
================================================================================
