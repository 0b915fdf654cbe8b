-------------------------------- MODULE LexTrace --------------------------------
(* Recorded highlightings against the lexical specifications: TRACE names a file  *)
(* of [l |-> language, s |-> strict?, t |-> code units, k |-> tokens].            *)
(* Every text is read by the machine of its language; at the end of the text the  *)
(* highlights must be those recorded.  A difference is reported per family of     *)
(* highlight types.                                                               *)
EXTENDS LexSmall, LexLlvm, LexLua, LexPython, LexRust, LexNasm, LexCss, LexXml, LexHtml, LexBash, LexCpp, LexJs, LexCowel, LexMarkdown, LexYaml, LexJson, Json, IOUtils

VARIABLES r, done, lang, stack

T == ndJsonDeserialize(IOEnv.TRACE)
vars == <<t, p, mode, out, strict, lim, floor, r, done, lang, stack>>

ModeInit(l) ==
  CASE l = "ebnf" -> EbnfInit
    [] l = "python" -> PyInit
    [] l = "yaml" -> YmInit
    [] l \in {"json", "jsonc"} -> JsonInit
    [] l = "markdown" -> MdInit
    [] l = "cowel" -> CwInit
    [] l = "jsx" -> JsxInit
    [] l = "ts" -> JsInit
    [] l = "js" -> JsInit
    [] l = "cpp" -> CppInit
    [] l = "c" -> CppInit
    [] l = "bash" -> BashInit
    [] l = "html" -> HtmlInit
    [] l = "xml" -> XmlInit
    [] l = "css" -> CssInit
    [] l = "nasm" -> NsInit
    [] l = "rust" -> RsInit
    [] l = "kotlin" -> KtInit
    [] OTHER -> ""
Step(l) ==
  CASE l = "diff" -> DiffStep
    [] l = "txt" -> TxtStep
    [] l \in {"tex", "latex"} -> TexStep
    [] l = "ebnf" -> EbnfStep
    [] l = "llvm" -> LlvmStep
    [] l = "lua" -> LuaStep
    [] l = "python" -> PyStep
    [] l = "java" -> JvStep
    [] l = "yaml" -> YmStep
    [] l = "json" -> JsonStep(strict = 0)
    [] l = "jsonc" -> JsonStep(TRUE)
    [] l = "markdown" -> MdStep
    [] l = "cowel" -> CwStep
    [] l = "jsx" -> JsStep(FALSE)
    [] l = "ts" -> JsStep(TRUE)
    [] l = "js" -> JsStep(FALSE)
    [] l = "cpp" -> CppStep(TRUE)
    [] l = "c" -> CppStep(FALSE)
    [] l = "bash" -> BashStep
    [] l = "html" -> HtmlStep
    [] l = "xml" -> XmlStep
    [] l = "css" -> CssStep
    [] l = "nasm" -> NsStep
    [] l = "rust" -> RsStep
    [] l = "kotlin" -> KtStep

Init ==
  /\ r \in 1 .. Len(T)
  /\ t = T[r].t
  /\ p = 0
  /\ lang = T[r].l
  /\ mode = ModeInit(lang)
  /\ lim = Len(t)
  /\ floor = 0
  /\ stack = << >>
  /\ out = << >>
  /\ strict = T[r].s
  /\ done = FALSE

Families == {"comment", "keyword", "name", "string", "number", "symbol", "markup", "diff", "text", "error"}
FamilyTable == [
  comment |-> {"comment", "comment_delim", "comment_doc", "comment_doc_delim"},
  keyword |-> {"keyword", "keyword_control", "keyword_type", "keyword_op", "keyword_this", "bool", "null", "value", "value_delim"},
  string |-> {"string", "string_delim", "string_decor", "string_escape", "string_interpolation", "string_interpolation_delim"},
  number |-> {"number", "number_delim", "number_decor"},
  symbol |-> {"symbol", "symbol_punc", "symbol_op", "symbol_formatting", "symbol_bracket", "symbol_parens", "symbol_square",
              "symbol_brace"},
  error |-> {"error"} ]
Starts(ty, w) == Len(ty) >= Len(w) /\ SubSeq(ty, 1, Len(w)) = w
InFamily(ty, f) == IF f \in DOMAIN FamilyTable THEN ty \in FamilyTable[f] ELSE Starts(ty, f)
Of(s, f) == SelectSeq(s, LAMBDA x : InFamily(x[3], f))

Report(kind) == PrintT(<<"REJECT", r, kind>>)
Judge ==
  IF out = T[r].k THEN TRUE
  ELSE /\ \A f \in Families : IF Of(out, f) = Of(T[r].k, f) THEN TRUE ELSE Report(f)
       /\ LET d == CHOOSE i \in 1 .. Len(out) + 1 :
                     /\ i > Len(out) \/ i > Len(T[r].k) \/ out[i] # T[r].k[i]
                     /\ \A j \in 1 .. i - 1 : j <= Len(T[r].k) /\ out[j] = T[r].k[j]
          IN PrintT(<<"EXPECT", r, d, IF d <= Len(out) THEN out[d] ELSE << >> >>)

(* End of an embedded text: back to the language around it. *)
Leave ==
  LET x == stack[Len(stack)]
  IN /\ lang' = x[1] /\ mode' = x[2] /\ lim' = x[3] /\ floor' = x[4]
     /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
     /\ UNCHANGED <<p, out, done>>
Read ==
  LET s == Step(lang)
      o == Put(out, s.k)
  IN /\ p' = s.p
     /\ out' = o
     /\ IF "in" \in DOMAIN s
        THEN /\ stack' = Append(stack, <<lang, s.m, lim, floor>>)
             /\ lang' = s.in[1] /\ mode' = ModeInit(s.in[1]) /\ lim' = s.in[2] /\ floor' = Len(o)
        ELSE mode' = s.m /\ UNCHANGED <<lang, stack, lim, floor>>
     /\ IF s.p > N \/ s.p < p \/ (s.p = p /\ s.m = mode /\ "in" \notin DOMAIN s) THEN Report("stuck") /\ done' = TRUE ELSE done' = FALSE
Next ==
  /\ ~done
  /\ UNCHANGED <<t, strict, r>>
  /\ IF p < N THEN Read
     ELSE IF stack # << >> THEN Leave
     ELSE Judge /\ done' = TRUE /\ UNCHANGED <<p, mode, out, lang, stack, lim, floor>>
Spec == Init /\ [][Next]_vars
View == <<r, p, mode, lang, stack, done>>

================================================================================
