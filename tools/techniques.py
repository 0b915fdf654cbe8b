S = ("TLA+ state machine of the API (Session.tla), explored exhaustively with TLC for small sources; "
     "recorded sessions of the real library validated against it by TLC")
TECH = {
    "C01": (S, "Exhaustive for the design; for the code, every recorded session is decided by TLC. Sessions are recorded "
               "under AddressSanitizer/UBSan for inputs a bulk monitor of the same rules finds suspicious, plus a sample; "
               "the monitor runs some 10^6 inputs (exhaustive short ones, lexeme sequences, mutated corpus)."),
    "C02": ("TLA+ machine that renders a token stream as HTML (Html.tla); recorded HTML output validated against it by TLC",
            "TLC decides each recorded call; a bulk monitor selects suspicious ones among some 10^6 calls."),
    "C03": (S + "; HTML flushes by HtmlTrace.tla", "As C01; buffer sizes 1, 2, 3, exact, exact+1, random and large."),
    "C04": ("TLA+ specification of request validation (Request.tla); all 24576 combinations of field defects recorded "
            "and validated by TLC", "Exhaustive over the combinations of null/empty/proper fields and all 256 language numbers."),
    "C05": ("TLA+ memo machine over call histories (Pure.tla), explored exhaustively with TLC for two threads and nested "
            "calls; recorded call/return histories of the real library, sequential, nested and four-threaded, validated by TLC",
            "Histories mix languages, flags, buffer sizes, reuse of states, reentrant calls, mutated surroundings; asan/tsan."),
    "C06": (S, "As C01; each source is highlighted with and without coalescing, with several buffer sizes."),
    "C13": ("TLA+ specification of lookup (Languages.tla); recorded lookups validated by TLC",
            "All strings up to two characters over a small alphabet, all names with all one-byte edits, random edits."),
    "C14": ("TLA+ table of highlight types (HighlightTypes.tla); names recorded for all 256 values, theme keys and the output "
            "of theme-to-css validated by TLC", "Exhaustive over the 256 values of a highlight type."),
}

TECH["C12"] = ("TLA+ automaton of Unicode Table 3-7 (Utf8.tla), checked exhaustively on boundary bytes; recorded results of every "
               "function of unicode.hpp and unicode_algorithm.hpp validated against it by TLC",
               "All lead bytes, all boundary sequences up to four bytes, mixed strings; a bulk monitor runs all 2^32 (thorough) or "
               "2^30 (quick) four-byte buffers and all scalar values, and TLC decides what it suspects.")
J = ("TLA+ pushdown machine of JSON (JsonMachine.tla), checked by TLC against the declarative grammar of RFC 8259 on all texts of up "
     "to 4 (thorough: 5) lexemes; recorded %s of the real code validated against the machine by TLC")
JB = "Texts: all pairs and sampled longer sequences of some 60 lexemes, every byte in every context, random documents and mutations of them."
TECH["C08"] = (J % "verdicts", JB)
TECH["C09"] = (J % "visitor events, positions, escapes and doubles", JB + " Doubles are decided with big natural numbers in TLA+.")
TECH["C10"] = (J % "error events", JB)
TECH["C11"] = (J % "token streams" + "; the recovery from malformed texts as a lexical machine (LexJson.tla), recorded highlightings validated against it", JB)
TECH["C07"] = ("TLA+ machine of a call under faults (Fault.tla), checked by TLC; recorded calls with failing allocations and throwing "
               "callbacks at every point validated against it by TLC",
               "Every allocation (alone, and with all following) and every callback of some 2000 calls fails in turn, under AddressSanitizer; "
               "the same state is used again afterwards.")
LX = ("TLA+ machines of the lexical structure of every language (Lex*.tla); highlightings recorded from the real code validated "
      "against them by TLC: %s")
LB = ("Texts: exhaustive short sequences over the lexemes and characters of each feature, random sequences of lexemes, all keywords and "
      "their near misses, fragments of the repository's examples and mutations of them; at most 600 bytes.")
TECH["C16"] = (LX % "all tokens of comment types", LB)
TECH["C17"] = (LX % "all tokens of keyword and name types", LB)
TECH["C18"] = (LX % "all tokens of string types", LB)
TECH["C19"] = (LX % "all tokens of number types", LB)
TECH["C30"] = (LX % "all tokens of symbol and error types", LB)
TECH["C23"] = (LX % "all tokens of diffs", LB)
TECH["C28"] = (LX % "all tokens of TeX, LaTeX, EBNF and COWEL", LB)
TECH["C24"] = (LX % "all tokens of HTML and XML", LB)
TECH["C25"] = (LX % "all tokens of CSS", LB)
TECH["C15"] = (LX % "all tokens of HTML with scripts and styles", "Texts: all combinations of opening tags, short contents and closing tags, and HTML around "
               "and between random scripts and style sheets; at most 800 bytes.")
TECH["C26"] = (LX % "all tokens of Markdown", LB)
TECH["C27"] = (LX % "all tokens of YAML", LB)
TECH["C20"] = ("TLA+ relation between the highlightings of a text without and with the strict flag (StrictTrace.tla) and the machines of C and C++ "
               "(LexCpp.tla); pairs recorded from the real code validated against them by TLC", LB)
TECH["C21"] = ("TLA+ readers of edit scripts and of unified diffs (Diff.tla, DiffTrace.tla), the length of the longest common subsequence checked "
               "by TLC against its definition, and every script between all short sequences explored (DiffModel.tla); recorded scripts and printed "
               "diffs of the real code validated against them by TLC",
               "All pairs of sequences of up to 4 lines over two lines; random pairs of up to 30 lines; contexts 0 to 9; with and without colors.")
TECH["C22"] = ("TLA+ models of loading under any sequence of short reads and errors (Io.tla, IoModel.tla, explored by TLC) and of the command-line "
               "program (Cli.tla); recorded loads, with reads scripted by the check, and recorded runs of the program validated against them by TLC",
               "Files of up to 80 bytes in blocks of 16 and up to 33 KB in real blocks, reads split and failing anywhere, all kinds of paths; runs of the "
               "program with all kinds of arguments, inputs, outputs and file size limits.")
TECH["C29"] = ("TLA+ semantics of themes and of the cascade of style sheets (Theme.tla); recorded runs of the script on themes generated at "
               "random and on those shipped validated against it by TLC, for each kind of token",
               "1000 random themes (6000 thorough) of up to 30 entries per variant, all themes shipped, all modes and options.")
TECH["C31"] = ("TLA+ design of the wrapper and of an environment that fails allocations, grows memory and splits the output (WebModel.tla), "
               "explored exhaustively with TLC; each of its behaviours is replayed on the real wrapper with the library compiled to WebAssembly "
               "(in Node), and the recorded calls are validated against the specification (WebTrace.tla) by TLC",
               "All 3110 scenarios of the model (decision per allocation, growth before, in and after the call, size of the pieces, status) with "
               "sources of all languages; sources of several buffers; every name of a language.")
NA = {}
