------------------------------ MODULE Languages ------------------------------
(* The names under which languages can be looked up, and their display names.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

LangCount == 26
None == 0

(* name |-> number of the language (include/ulight/ulight.h) *)
Names == <<
  <<"asm", 16>>,
  <<"assembler", 16>>,
  <<"assembly", 16>>,
  <<"atom", 12>>,
  <<"bash", 8>>,
  <<"c", 6>>,
  <<"c++", 2>>,
  <<"cc", 2>>,
  <<"cjs", 7>>,
  <<"cow", 1>>,
  <<"cowel", 1>>,
  <<"cplusplus", 2>>,
  <<"cpp", 2>>,
  <<"css", 5>>,
  <<"cxx", 2>>,
  <<"diff", 9>>,
  <<"ebnf", 17>>,
  <<"gyp", 18>>,
  <<"h", 6>>,
  <<"h++", 2>>,
  <<"hpp", 2>>,
  <<"htm", 4>>,
  <<"html", 4>>,
  <<"hxx", 2>>,
  <<"java", 24>>,
  <<"javascript", 7>>,
  <<"js", 7>>,
  <<"json", 10>>,
  <<"jsonc", 11>>,
  <<"jsx", 7>>,
  <<"kotlin", 19>>,
  <<"kt", 19>>,
  <<"kts", 19>>,
  <<"latex", 15>>,
  <<"ll", 22>>,
  <<"llvm", 22>>,
  <<"lua", 3>>,
  <<"markdown", 23>>,
  <<"mathml", 12>>,
  <<"md", 23>>,
  <<"mjs", 7>>,
  <<"mml", 12>>,
  <<"nasm", 16>>,
  <<"patch", 9>>,
  <<"plaintext", 13>>,
  <<"plist", 12>>,
  <<"py", 18>>,
  <<"python", 18>>,
  <<"rs", 21>>,
  <<"rss", 12>>,
  <<"rust", 21>>,
  <<"sh", 8>>,
  <<"svg", 12>>,
  <<"tex", 14>>,
  <<"text", 13>>,
  <<"ts", 20>>,
  <<"tsx", 20>>,
  <<"txt", 13>>,
  <<"typescript", 20>>,
  <<"x86asm", 16>>,
  <<"xbj", 12>>,
  <<"xhtml", 12>>,
  <<"xml", 12>>,
  <<"xsd", 12>>,
  <<"xsl", 12>>,
  <<"yaml", 25>>,
  <<"yml", 25>>,
  <<"zsh", 8>>
>>

DisplayNames == <<
  "COWEL",
  "C++",
  "Lua",
  "HTML",
  "CSS",
  "C",
  "JavaScript",
  "Bash",
  "Diff",
  "JSON",
  "JSON with Comments",
  "XML",
  "Plaintext",
  "TeX",
  "LaTeX",
  "NASM",
  "EBNF",
  "Python",
  "Kotlin",
  "TypeScript",
  "Rust",
  "LLVM",
  "Markdown",
  "Java",
  "YAML"
>>   \* of languages 1 .. 25

Alphabet == "abcdefghijklmnopqrstuvwxyz0123456789+"
Codes == [ i \in 1 .. 26 |-> 96 + i ] \o [ i \in 1 .. 10 |-> 47 + i ] \o <<43>>
CodeOf(ch) == Codes[CHOOSE i \in 1 .. Len(Alphabet) : SubSeq(Alphabet, i, i) = ch]
Bytes(s) == [ i \in 1 .. Len(s) |-> CodeOf(SubSeq(s, i, i)) ]

Table == [ i \in DOMAIN Names |-> <<Bytes(Names[i][1]), Names[i][2]>> ]
Known == { Table[i][1] : i \in DOMAIN Table }
LangOf == [ n \in Known |-> (CHOOSE i \in DOMAIN Table : Table[i][1] = n) ]

(* Lookup of a byte string by name: exact, case-sensitive. *)
Lookup(b) == IF b \in Known THEN Table[LangOf[b]][2] ELSE None

(* Lookup by path: of the text after the last dot. *)
Dots(b) == { i \in DOMAIN b : b[i] = 46 }
FromPath(b) ==
    LET d == Dots(b) IN
    IF d = {} THEN None
    ELSE LET last == CHOOSE i \in d : \A j \in d : j <= i
         IN  Lookup(SubSeq(b, last + 1, Len(b)))

(* Lexicographic order of byte strings. *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1]
              ELSE Less(Tail(a), Tail(b))

(* The names are what the design promises: unique, and every language has one. *)
ASSUME Cardinality(Known) = Len(Names)
ASSUME { Names[i][2] : i \in DOMAIN Names } = 1 .. LangCount - 1
ASSUME Cardinality({ DisplayNames[i] : i \in DOMAIN DisplayNames }) = LangCount - 1
================================================================================
