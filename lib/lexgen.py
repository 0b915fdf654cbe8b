"""Texts for the lexical specifications: per language, lexemes and small alphabets for each feature."""
import itertools
import os
import re

import lexchk
import streams
import vlib

FEATURES = ("comment", "string", "number", "word", "op", "other")
WIDE = ["ä", "中", "𝒜", "\u0301", "\u203f", "€", "😀", "\u00a0", "\u2028", "\ufeff", "\u0085", "\u200e"]
GAPS = ["", "", "", "", " ", " ", "\n", "\t", "\r\n", "  "]
CNUM = ["0", "1", "7", "9", "12", "00", "0x", "0X", "0b", "0B", "0o", "x", "e", "E", "p", "P", "+", "-", ".", "_", "'", "f", "F", "a", "l",
        "L", "u", "U", "n", "j", "i", "g", "G", "8", "2"]
NUMS = ["0", "1", "42", "0x1F", "0X1f", "0b10", "0B11", "0o17", "017", "08", "1.5", "1.", ".5", "1e5", "1E+5", "1.5e-3", "1e", "1e+", "0x",
        "0b", "0b2", "0o8", "1_000", "1__0", "1_", "_1", "0x_1", "1'000", "1''0", "1f", "1.5f", "1L", "1u", "1UL", "1ull", "10n", "1.e5",
        "0x1.8p3", "0x1p-2", "0xg", "1.2.3", "1..2", "0.0", "00", "1i32", "1.0f64", "1u8", "1j", "0xFFh", "123abc", "1e9", "1E+9", "1E-9", "1e-9", "1E9", "1e+9", "0x1p9", "0x1P+9", "0x1P-9", "0x1p-9", "0x1p+9", "0x1P9", "1ea", "1e+a", "1E-a", "0X1g", "0o9", "0x1pa",
        "0b3", "0O8", "0x1P+a", "1e5f", "0b1010_0101"]

# the specification modules
SPEC = {"diff": "LexSmall.tla", "txt": "LexSmall.tla", "tex": "LexSmall.tla", "latex": "LexSmall.tla", "ebnf": "LexSmall.tla", "llvm": "LexLlvm.tla",
        "lua": "LexLua.tla", "python": "LexPython.tla", "java": "LexJava.tla", "kotlin": "LexJava.tla", "rust": "LexRust.tla",
        "nasm": "LexNasm.tla", "css": "LexCss.tla", "xml": "LexXml.tla", "html": "LexHtml.tla", "bash": "LexBash.tla", "c": "LexCpp.tla",
        "cpp": "LexCpp.tla", "js": "LexJs.tla", "ts": "LexJs.tla", "cowel": "LexCowel.tla", "markdown": "LexMarkdown.tla", "yaml": "LexYaml.tla",
        "json": "LexJson.tla", "jsonc": "LexJson.tla"}
# "alpha": {feature: pieces put together exhaustively}; "kw": words which matter
L = {}
L["diff"] = {"other": ["---", "--- ", "+++", "+++ ", "@@", "@@ ", "***", "*** ", "****", "-", "+", "!", "@", "*", " ", "\n", "\r\n", "\r", "a",
                       "- ", "+ ", "---\n", "*\n", "--", "++", "-1,2 +3,4 @@"],
             "alpha": {"other": ["-", "+", "*", "@", "!", " ", "\n", "\r", "a"]}}
L["txt"] = {"other": ["a", "\n", "<", "\\"]}
L["tex"] = {"other": ["\\", "{", "}", "[", "]", "%", "~", "$", "$$", "#", "#1", "&", "^", "_", "@", "\\abc", "\\begin{x}", "\\{", "\\\\", "\\\n",
                      "a", "1", "\\a1", "\\@x", "% c\n", "\\ä", " ", "\\end", "*", "\"", "|", "<", "!"],
            "alpha": {"other": ["\\", "{", "a", "@", "ä", "1", "]", "%", "\n"]}}
L["latex"] = L["tex"]
L["ebnf"] = {"comment": ["(*", "*)", "(* a *)", "(*)", "(**)", "(* (* *) *)"],
             "string": ["'", '"', "`", "'a'", '"b\'c"', "`x`", '"\n"', "? sp ?", "?"],
             "number": ["1", "23", "4a"],
             "word": ["a", "A_b", "a-b", "a1", "_", "x9-y", "-"],
             "op": list(",!|*/:[]{};.=()?-") + ["(:", ":)", "(/", "/)"],
             "other": ["\v", "\f", "\\", "+", "<", "&", "#", "\0"],
             "alpha": {"comment": ["(", "*", ")", "a", "'"], "word": ["a", "-", "1", "=", " ", ";", "b"], "op": ["(", "/", ":", ")", "a"],
                       "string": ["'", '"', "`", "?", "a"]}}
L["llvm"] = {"comment": [";", "; c", ";\n", "/*", "*/", "/* a */", "/", "//", "/**/", ";;\r\n", "; a\r"],
             "string": ['"', '"a"', 'c"a\\00"', '"\\\\"', '"\\4"', '"\\zz"', "\\", '"\\22"', '""'],
             "number": ["-5", "-", "0xKFF", "0xLab", "0xM1", "0xR1", "s0x1F", "u0x1", "0xHAB", "1e+5", "2.5E-3", "-1.5", "s0", "u1", "0xK", "--1", "1-2"],
             "word": ["%a", "%1", "@f", "@", "%", "@.str", "%a.b$c-d_e", "i32", "i1", "i", "i32x", "lbl:", "1:", "entry :", "x", "c", "define", "-a",
                      "ret", "br", "ptr", "%\"a\"", "x86_fp80", "a-b", "a.b"],
             "op": list("()[]{},:<>=!#*+$&|^~`.?"),
             "alpha": {"number": ["0", "x", "K", "1", ".", "e", "-", "s", "a"], "word": ["%", "@", "a", ":", ".", "-", "i", "1"],
                       "comment": ["/", "*", ";", "a", "\n", "\r"], "string": ['"', "\\", "1", "g", "ä"]}}
L["lua"] = {"comment": ["--", "-- c", "--[[", "]]", "--[[ a ]]", "--[=[", "]=]", "--[==[", "]==]", "--[=", "--[", "-- [[", "--]]", "--[=[ ]] ]=]",
                        "--[[ ]=] ]]", "-", "--[==[ ]=] ]==]"],
            "string": ["[[", "]]", "[=[", "]=]", "[==[", "]==]", '"', "'", '"a"', "'b'", '"a\\"b"', "'\\'", '"\\\n"', '"\n', "[[a]]", "[=[ ]] ]=]", "[=",
                       "\\", "[", "]", "'\\\\'"],
            "number": ["0x.8", "0x1.8p+1", "3..2", "0xA.", "1e-", "0xp1", "0x1P-1", "1.e2"],
            "word": ["a", "_b", "a1", "and", "local", "nil", "end", "true", "<const>", "<close>", "<const", "goto", "äb", "self"],
            "op": ["<", "<<", "<=", "==", "=", ">=", ">>", "~", "~=", "//", "..", "...", "....", "::", ":", "#", "%", "^", "|", "&", ",", ";", "(", ")",
                   "{", "}", "!", "@", "$", "?", "\\", "`"],
            "alpha": {"comment": ["-", "[", "]", "=", "a", "\n"], "string": ["[", "=", "]", '"', "'", "\\", "\n", "a"],
                      "op": ["<", ">", "=", "~", ".", "/", ":", "1"]}}
L["python"] = {"comment": ["#", "# c", "#\r", "##", "# 'a'\n", "#\r\n"],
               "string": ["'", '"', "'''", '"""', "r'", 'b"', "rb'", "f'", "u'", "Rf'", "x'", "bR\"", "'a'", "''", '""', '""""""', "\\", "\\'", '\\"', "\\n",
                          "\\x4", "\\x41", "\\N{A b}", "\\N{", "\\N", "\\u12", "\\u1234", "\\U0001F600", "\\U123", "\\0", "\\12", "\\777", "\\8", "\\\n",
                          "\\\r\n", "\\ä", "{x}", "b'\\u1234'", "rb'\\ä'", "r'\\'", "U''", "rB'", "fr'''", "Br\"", "ur'", "\\d"],
               "number": ["1_0j", "1.5J", "0B1", "0O7", ".5e3", "1e5j", "0xfj", "1if", "0_7", "1._5", "1_.5", "._5", "5.j", "00.5", "0o_7"],
               "word": ["a", "_b", "r", "b", "rb", "and", "None", "True", "äb", "self", "𝒜1", "a\u0301", "match", "in", "is"],
               "op": ["!", "!=", "%=", "**", "**=", "->", "...", "..", ".", "//", "//=", ":=", ":", "<<", "<<=", "<=", "<>", "==", "=", ">>", ">>=", ">>>",
                      ">>>=", "@", "@=", "^=", "|=", "~", "~=", "\\", "(", ")", "[", "]", "{", "}", ",", ";", "?", "$", "`", "*=", "+=", "-=", "/=", "&="],
               "alpha": {"string": ["'", "\\", "r", "b", "a", "\n", "4", "x"], "number": ["0", "1", "_", ".", "e", "j", "x", "-"],
                         "op": ["*", "/", "<", ">", "=", ".", "-", "!", ":", "a"], "comment": ["#", "a", "\r", "\n", "'"]}}
L["java"] = {"comment": ["//", "// c", "/*", "*/", "/* a */", "/**/", "/*/", "//\r", "/* // */", "// \u2028x"],
             "string": ['"', "'", '"""', "'a'", '"a"', '"""\na"""', "''", "'\\''", "\\", "\\n", "\\s", "\\377", "\\477", "\\u12", "\\u0041", '\\"', "\\\n",
                        "\\\r\n", "'ab'", "'\\", "'\n", '"\n', '""', '"""  \r\n', '"""\t', "\\q", "'ä'", '""""'],
             "number": ["0x1.8p3f", "0x1P-2d", "1D", "1lf", "0xp1", "1p3", "0b1L", "0_1", "1f_", "0x1e3", "08.5", "0x.1p1", "0xFL"],
             "word": ["@A", "@a.b.c", "@a.", "@", "$", "$a", "_", "_x", "x1", "@interface", "@_", "@ a", "a$b", "int", "@a.1", "@ä"],
             "op": ["!", "!=", "&&", "&=", "&", "++", "+=", "--", "-=", "->", "...", "..", ".", "/", "/=", "::", ":", "<<", "<<=", "<=", "<", "=", "==",
                    ">>", ">>=", ">>>", ">>>=", ">=", "?", "@", "^=", "|", "||", "|=", "~", "(", ")", "[", "]", "{", "}", ";", ",", "#", "`", "\\", "%=",
                    "*="],
             "alpha": {"string": ['"', "'", "\\", "a", "\n", "1", " "], "number": ["0", "1", "_", ".", "e", "x", "p", "-", "f"],
                       "op": [">", "<", "=", "-", ".", "&", ":", "a"], "comment": ["/", "*", "a", "\n", '"'], "word": ["@", "a", ".", "1", "$", " "]}}
L["kotlin"] = {"comment": ["//", "// c", "/*", "*/", "/* a */", "/**/", "/* /* */ */", "/* /*", "//\r", "/*/", "*/ */"],
               "string": ['"', "'", '"""', "'a'", '"a"', '"$a"', '"${', "${a}", "}", '"""a""""', '"""""""', "$", "$1", "${", "\\", "\\n", "\\$", "\\u12", "\\u0041",
                          '\\"', "\\q", "'$'", '"\n', "$ä", '"${"a"}"', '"${ {} }"', '"""\\n"""', '"""$x\n', "'\\''", "{", "$_"],
               "number": ["1.f", "1.toInt()", "0xFuL", "1uL", "1Ul", "1UL", "0b1u", "1_.5", "1e5f", "1.0F", "1...2", "0x1.8", "_1"],
               "word": ["`a b`", "``", "`", "`a\n", "@a", "@a.b:c", "@a:[b c]", "@[a b.c 1]", "@[", "@file:A", "@a:", "@", "break@", "return@x", "as?", "as ?",
                        "!in", "!is", "!isx", "!in1", "this@A", "super", "_", "_x", "x$y", "thisx@", "@a.:b", "basis"],
               "op": ["!", "!=", "!==", "&&", "&", "++", "+=", "--", "-=", "->", "..", "...", "..<", "::", ":", ";;", ";", "<=", "<", "==", "===", "=>", "=",
                      ">=", ">", "?.", "?:", "?", "@", "||", "|", "#", "%=", "(", ")", "[", "]", "{", "}", "~", "^", "\\", "*=", "/=", "!!"],
               "alpha": {"string": ['"', "'", "$", "{", "}", "a", "\\", "\n"], "number": ["0", "1", "_", ".", "e", "x", "u", "L"],
                         "op": ["!", "=", "i", "s", "n", "?", ".", ";"], "comment": ["/", "*", "a", "\n", '"'],
                         "word": ["@", "a", ".", ":", "[", "]", "`", " "]}}
L["rust"] = {"comment": ["//", "// c", "/*", "*/", "/* a */", "/**/", "/* /* */ */", "/* /*", "//\r", "/*/", "*/ */", "///", "//!"],
             "string": ['"', "'", "'a'", '"a"', "b'", "b'a'", 'b"', 'br"', 'r"', 'r#"', 'br##"', '"#', '"##', "cr#", 'c"', "r#", '##"', "\\", "\\n",
                        "\\x41", "\\x4", "\\u{41}", "\\u{", "\\u", "\\u{g}", "\\0", "\\\n", "'\\\n'", "'\\x41'", "'\\u{1}'", "''", "'" * 3, "'ab'", "'\t'",
                        "'ä'", "r#'", '"a"x', "'a'x", "b'\\u{1}'", "'\\", 'rb"', "\\q", 'r#"a"#', 'r#" "#', 'cr"\\"', 'cr#"\\"#'],
             "number": ["1..2", "1.foo()", "1.", "t.0", "1_u32", "1__2", "0x_1_", "0x_", "1._0", "1._", "1.e5", "1.0e5f32", "0b1e5", "0o17u8", "1e5_f64",
                        "0xE+1", "1.0.0", "..=5", "1..=2", "1E_", "1é"],
             "word": ["a!", "a!=b", "a!(", "'a", "'a:", "'static", "'r#a", "'#ra", "'r#self", "r#match", "r#self", "r#a!", "r#", "Self", "u8", "String",
                      "macro_rules!", "_", "_x", "x1", "'_", "'a'", "b", "br", "r", "c"],
             "op": ["!", "!=", "&&", "&=", "&", "+=", "+", "-=", "->", "-", "...", "..=", "..", ".", "/=", "/", "::", ":", "<<", "<<=", "<=", "<-", "<", "==",
                    "=>", "=", ">>", ">>=", ">=", ">", "?", "@", "^=", "^", "||", "|=", "|", "#", "$", "~", "(", ")", "[", "]", "{", "}", ";", ",", "\\", "`",
                    "*=", "%="],
             "alpha": {"string": ['"', "'", "#", "r", "b", "\\", "a", "\n"], "number": ["0", "1", "_", ".", "e", "x", "u", "="],
                       "op": ["<", ">", "=", ".", "!", "&", "-", "a"], "comment": ["/", "*", "a", "\n", '"'],
                       "word": ["'", "r", "#", "a", "!", "=", ":", "_"]}}
L["nasm"] = {"comment": [";", "; c", ";\n", ";\r", "; 'a'\r\n", "%", "%define a 1", "%macro x\n", "%a\r\n"],
             "string": ['"', "'", "`", "'a'", '"a"', "`a`", "`\\n`", "\\", "\\0", "\\377", "\\x4", "\\x41", "\\u12", "\\u1234", "\\U0001F600", "\\q", "\\`",
                        '"\n', "`\n", "`\v", "'\\'", "``", "`\\ä`", "\\8"],
             "number": ["0ffh", "ffh", "0x1d", "0b1h", "1_0h", "1__0h", "10b", "12b", "0b", "0d", "17q", "18o", "9d", "9ad", "1t", "$0f", "$ff", "$", "$1_0",
                        "0hd", "0y1", "0q7", "1p3", "1.5e3", "deadh", "_1h", "1x", "each", "0xb", "0t9"],
             "word": ["mov", "a", "eax", "EAX", "jmp", "Jz", "lbl:", ".loop", ".l:", "..@x", "$$", "$a", "_x", "?a", "seg", "WRT", "byte", "Dword", "far", "r8d", "xmm30",
                      "db", "equ", "times", "resb", "a.b", "a$", "a#b", "a@", "dx", "cx", "ah", "r12w", "zmm31", "st7", "loop", "call", "a~"],
             "op": ["?", ":", "+", "-", "*", "~", "=", "==", "!", "!=", "|", "||", "&", "&&", "^", "^^", ">", ">>", ">>>", ">=", "<", "<<", "<<<", "<=>", "<=", "/",
                    "//", "(", ")", "[", "]", "{", "}", ",", "@", "#", "\\", ".", "\v", "\f"],
             "alpha": {"string": ["'", "`", "\\", "a", "\n", "1", "x"], "number": ["0", "1", "b", "h", "x", "d", "_", "$", "."],
                       "op": ["<", ">", "=", "/", "|", "!", "a", "1"], "word": ["a", ":", ".", "$", " ", "\n", "jz", "?"]}}
L["css"] = {"comment": ["/*", "*/", "/* a */", "/**/", "/*/", "/", "//", "<!--", "-->", "<!-", "--", "/* \n */"],
            "string": ['"', "'", '"a"', "'b'", '"\\"', '\\', "\\a", "\\41 ", "\\000041x", "\\\n", "\\\r\n", '"\n', "\\41\r\n", "\\ä", "\f", "\\1F600 ", "\\g"],
            "number": ["0", "1", "1.5", ".5", "-1", "+.5", "1e5", "1e-5", "1E+2", "1e", "1px", "10%", "-1em", "1--x", "1-x", "+", "-", ".", "1.", "1\\41", "e3", "%", "--1", "1ä", "-.5e1"],
            "word": ["div", "a", ".b", "#id", "#fff", "@media", "@x-y", "@", "@1", "url(", "URL(", "rgb(", "color:", "--x", "-x", "-webkit-a", "--", "!important", "! IMPORTANT",
                     "!imp", "!", "!importantx", "äö", "#", "#1", "#\\41", "@-a", "@\\61", "a\\62 c(", "_", "-é", "!/**/important", "\\75rl("],
            "op": ["{", "}", "(", ")", "[", "]", ",", ":", ";", ">", "~", "*", "+", "<", "=", "|", "^", "$", "&", "?", "::", ":not(", "a{", "b:", "@m "],
            "alpha": {"op": ["{", "}", ":", ";", "@a", "b", "."], "number": ["1", ".", "-", "e", "+", "%", "a"], "string": ["'", '"', "\\", "\n", "a", "1", "\r"],
                      "comment": ["/", "*", "a", "-", "<", "!", ">"], "word": ["a", "-", "#", "\\", "1", "(", "!"]}}
L["xml"] = {"comment": ["<!--", "-->", "--", "<!-- a -->", "<!---->", "<!-- a -- b -->", "-", "<!--->", "<!"],
            "string": ['"', "'", '="', "='", '"a"', "&amp;", "&", "&#65;", "&#x41;", "&#xg;", "&#X41;", "&a_b;", "&a-b;", "&;", ";", "&#;", "&#x;", "&ä;", "&a b;", "<", "&1;",
                       "<a b=\"", "c'", "<a b='x\"y' c=\"&lt;<\"/>"],
            "word": ["<?xml ", "<?xml", "?>", "<?", "<?a b?>", "<?xml-x a?>", "<?XML?>", " version=", "version = ", "1.0", '"1.0"', "'1.1'", " encoding=", ' standalone="yes"', "<!DOCTYPE", "<!DOCTYPE a",
                     " SYSTEM", " PUBLIC", ' "a"', " 'b'", " [", "]", ">", "]>", "<!ELEMENT", "<!ATTLIST a ", "<!ENTITY", " %", " x ", "ANY", "EMPTY", "(#PCDATA)", "(a|b)*", "(a?,b+)",
                     "#REQUIRED", "#FIXED", "#IMPLIED", "#X", "CDATA", "IDREFS", "ID", "NMTOKENS", "NOTATION", "NDATA", "ANYx", "&r;", "%r;", "?", "#PCDATAx", "IDREF>", "1."],
            "op": ["<", ">", "/", "/>", "</", "=", "<a", "<a>", "</a>", "<a/>", " b", " c=", ":", "<b-c.d", "<a:b", "<1a", "<ä", "<![CDATA[", "]]>", "]]", "<![", " ", "\n", "<·a", "<€", "<a«b", " a/b", "</a ",
                   "</>", "x", "\"v\"", "\u00b7"],
            "alpha": {"op": ["<", ">", "/", "a", "=", '"', " "], "comment": ["<!--", "-", ">", "a"], "string": ["&", ";", "a", "#", "x", "<a b='", "'", "1"],
                      "word": ["<!D", " ", "a", "[", "]", ">", "<!", "<?xml", "?>", "SYSTEM", "'"]}}
L["html"] = {"comment": ["<!--", "-->", "--", "<!-- a -->", "<!---->", "<!-- a -- b -->", "-", "<!-->", "<!--->", "--!>", "<!-- a <!-->", "<!", "<!-- <!-- a -->", "<!--->a-->"],
            "string": ['"', "'", '="', "='", '"a"', "&amp;", "&", "&#65;", "&#x41;", "&#xg;", "&#X41;", "&a_b;", "&;", ";", "&#;", "&#x;", "&ä;", "&a b;", "<", "&1;",
                       "<a b=\"", "c'", "<a b='x\"y' c=\"&lt;<\"/>", "<a b=x&lt;y c", "<a b=c>", "<a b=", "`"],
            "word": ["<title>", "</title>", "<textarea a=b>", "</TEXTAREA ", "<title", "</titlex>", "</tit", "<style>", "</style>", "<style a='b'>", "</STYLE/", "</style", "</stylex>", "a{b:c}", "/*</style>*/",
                     "&lt;", "<STYLE\n>", "<style/>", "<style \">", "<title/>", "<title \">", "color:red", "<!DOCTYPE html>", "<!doctype", "<!DocType x y>",
                     "<script>", "</script>", "<SCRIPT a>", "</script", "let a = 1;", "/* x", "'a", "`b${", "</scriptx>"],
            "op": ["<", ">", "/", "/>", "</", "=", "<a", "<a>", "</a>", "<a/>", " b", " c=", ":", "<b-c.d", "<a:b", "<1a", "<ä", "<![CDATA[", "]]>", "]]", "<![", " ", "\n", "<·a", "<€", "<a«b", " a/b", "</a ",
                   "</>", "x", "\"v\"", "\u00b7", "</a b=c>", "</ a>", "a«=", "\ufeff", "==", "<a b ="],
            "alpha": {"op": ["<", ">", "/", "a", "=", '"', " "], "comment": ["<!--", "-", ">", "a", "<", "!"], "string": ["&", ";", "a", "#", "x", "<a b='", "'", "<a b=", "1"],
                      "word": ["<title>", "<", "/title", ">", "&lt;", "<style>", "/style", "a{", "/*", " "]}}
L["bash"] = {"comment": ["#", "# a", "# a\n", "a#b", "$#", "${#x}", ";#", "#!/bin/sh\n", " #", "'a'#", "#\\\n", "$((#", "(#", ")#", "a #b\n", "# \"\n"],
             "string": ["'", '"', "'a'", '"a b"', '"$x"', '"${x}"', "\\", "\\\n", "\\a", "\\ä", '"\\"', '"\\$"', '"\\a"', "$'a'", "$\"a\"", "`", "'\\'", '"$(echo "a")"', '"${a:-"b"}"',
                        "\"\\\n\"", '"$"', "\"'\""],
             "word": ["$x", "$1", "$10", "$_a1", "${x}", "${x:-a}", "${", "}", "$(", ")", "$((", "))", "$((1+2))", "$(a b)", "$$", "$?", "$%", "$^", "$", "echo", "-a", "--long", " -x y",
                      "a=b", "if", "x", "(", "(a b)", "<(a)", "${x/(/)}", "${x\ny}", "$(a;b)", "ä", "$ä", "a$b", "a${b}c", "\v", "\f", "[[", "]]", "{ ", "${a'}'}", "${x|y}", "$((a)"],
             "op": ["|", "||", "&", "&&", "&>", "&>>", ";", ";;", "<", "<<", "<<<", "<&", "<>", ">", ">>", ">&", ">|", "|&", "2>&1", "!", "*", "=", "~", "@", ":", "?", "[", "]", "{", "}",
                    "(", ")", "a", " a", " -b", "\r\n"],
             "alpha": {"op": ["|", "&", ";", "<", ">", "a", " ", "-"], "word": ["$", "(", ")", "{", "}", "a", " ", "-"], "string": ["'", '"', "\\", "$", "a", "(", ")"],
                       "comment": ["#", "a", " ", "$", "{", "}", "\n", ";"]}}
L["cpp"] = {"comment": ["//", "// c", "/*", "*/", "/* a */", "/**/", "/*/", "//\r", "/* // */", "// a \\\nb", "// \\  \r\nb", "//\\", "/* \n */", "// \\x\n", "\\\n", "\\ \t\n"],
            "string": ['"', "'", "'a'", '"a"', "''", "'\\''", "\\", "\\n", "\\0", "\\377", "\\477", "\\u12", "\\u0041", '\\"', "\\\n", "\\\r\n", "\\ \n", "\\ ", "'ab'", "\\u{41}", "\\u{", "\\x{4g}",
                       "\\x", "\\xabc1", "\\o{17}", "\\o{8}", "\\o", "\\N{DASH}", "\\N{", "\\N", "\\N{}", "\\U0001F600", "\\U1", "\\q", "\\ä", "\\@", "\\`", "u8", "u", "U", "L", "R", "u8R", "LR", "UR", "uR", "Ru",
                       'R"(a)"', 'R"x(a)x"', 'R"x(a)y"', 'R"x(', 'R"', 'R"ä(', 'R"a b(', 'LR"()"', 'FooR"(a)"', "8\"a\"", '"a"_km', "'a'if", '"a"R"(b)"', 'operator""_x', "x'a'", "return\"a\"", "L'a'", 'R")")"', 'R""()""',
                       '\\x41}', "_x", "u8'", "uR'a'", 'R"\n(', ')"', "}"],
            "number": ["0x1.8p3f", "0x1P-2d", "1'0", "1''0", "1'", "0xp1", "1p3", "1p+3", "0b1L", "0b'1", "08.5", "0x.1p1", "0xFL", "1e+3p-55", "0xe+1", "1._x", ".5", "..5", "1..2", "1e'5", "1_ä", "1€", "1.e", "1e",
                       "0x'a", "1'e+5", "0X", "1E5_km", "1u8'a'", "12'ä"],
            "word": ["_x", "x1", "a_t", "_t", "t", "catch", "class", "restrict", "_Bool", "__int128", "int", "typeof", "ä", "aä_t", "$a", "a$b", "noexcept", "asm", "\u0301a", "final", "nullptr", "this", "@", "`", "typeof_unqual"],
            "op": ["#", "##", "#define A", "#include <a>", "#include \"a\"", "#include <a", "# include\t<a>b", "#include\n<a>", "#\n", "#\\\n", "%:", "%:%:", "%:include <x>", "<::", "<:::", "<::>", "<:", ":>", "<%", "%>", "<=>", "<<=",
                   "->*", ".*", "...", "..", "::", "^^", "^=", "&&", "&=", "||", "|=", "++", "--", "+=", "-=", "*=", "/=", "%=", "!=", "==", ">>=", ">>", "<<", "~", "?", ":", ";", ",", "(", ")", "[", "]", "{", "}", "\v#", "\f", "\r#",
                   "#x", "#1", "#include", "include <a>", "\\\n#", "/**/#", "/*\n*/#", "#define #x"],
            "alpha": {"string": ['"', "'", "\\", "R", "a", "\n", "(", ")", "u8"], "number": ["0", "1", "'", ".", "e", "x", "p", "-", "f"],
                      "op": [">", "<", "=", "-", ":", "%", "*", "a"], "comment": ["/", "*", "\\", "\n", " ", "#"], "word": ["#", "a", "\n", "\\", " ", "include", "<", ">"]}}
L["c"] = L["cpp"]
L["js"] = {"comment": ["//", "// c", "/*", "*/", "/* a */", "/**/", "/*/", "//\r", "//\u2028", "/* // */", "/* \n */", "#!", "#! a", "\n#!", "//`"],
           "string": ['"', "'", "'a'", '"a"', "''", "'\\''", "\\", "\\n", "\\0", "\\377", "\\477", "\\u12", "\\u0041", '\\"', "\\\n", "\\\r\n", "\\\r", "\\\u2028", "\\x", "\\x4", "\\x41",
                      "\\u{41}", "\\u{", "\\u{}", "\\u{4g}", "\\q", "\\ä", "\\😀", "`", "`a`", "${", "}", "{", "`${a}`", "`${`b`}`", "`${{}}`", "\\`", "\\$", "$", "$$", "$`", "\\${", "'a\nb'", '"\u2028"', "\\9",
                      "/a/", "/[/]/g", "/\\//", "/[\\]/]/", "/a", "= /a/u", ")/a/", "return /x/", "/=/", "/ä/äg", "/\\", "a /b/ c", "1 / 2", "]/a/", "/*a*/ /b/", "/[a", "/[]/", "x++ /a/i", "typeof/a/", "`/a/"],
           "number": ["0B1", "0O7", "1n", "1.5n", "1e3n", "0x1n", "0x1.5", "0_1", "1_n", ".5", "?.5", "?.", "1..", "1.e", "08", "0b", "1__2", "1_.5", "1e_5", "1e5_0", "0x_1", "1nn", "1n1", "01.5", "..5", "...5"],
           "word": ["$", "_", "$a", "a$b", "#a", "#", "#1", "# a", "@", "@a", "abstract", "any", "is", "constructor", "catch", "get", "async", "ä", "aä", "\u0301a", "a\u0301", "a\u200d", "\\u0061", "of", "undefined",
                    "string", "super", "this", "type", "true", "null", ".if", "x.class", "void", "ifx", "中", "℘", "ក"],
           "op": ["?.", "??", "??=", "?", "=>", "===", "!==", "**=", ">>>=", ">>>", "&&=", "||=", "...", "..", "++", "--", "!", "~", "^", "%", "@", "(", ")", "[", "]", "{", "}", ";", ",", ":", "<", ">", "</", "/>", "\u00a0",
                  "\u2028", "\u2029", "\ufeff", "\v", "\f", "\u0085"],
           "other": ["<", ">", "/", "</", "/>", "<a>", "</a>", "<a/>", "<>", "</>", "<a b>", "<a b=\"c\">", "<a b='c' d>", "<a b={c}>", "<a {...b}/>", "<a:b>", "<a.b/>", "<a-b c-d=\"e\">", "{a}", "{", "}", "{<b/>}", "{'}'}",
                     "{/*}*/}", "&amp;", "&#65;", "&", "&x;", "<a /*c*/>", "<a //c\n>", "< a >", "< / a >", "a < b", "a<b>c", "(<a>", "return <a>", "= <b/>", "text", "<a b=<c/>>", "<a b=>", "<a =>", "<a>{b}</a>",
                     "<a>{`${c}`}</a>", "<a>{'\\'}'}</a>", "<a>{{}}</a>", "<a><b></b></a>", "<1>", "<ä>", "<a b={\"}\"}/>", "<a>{</a>}", "<a>}</a>", "<a>></a>", "{}", "\n", "`<a>`", "<a b={`}`}/>", "<a>{//}\n}</a>"],
           "alpha": {"string": ["`", "$", "{", "}", "\\", "a", "'", "\n"], "comment": ["/", "*", "\n", "[", "]", "\\", "a", ")"], "number": ["0", "1", "_", ".", "e", "x", "n", "?"],
                     "op": ["?", ".", "=", ">", "<", "!", "&", "5"], "other": ["<", ">", "/", "a", "{", "}", "=", "\"", " ", "&"], "word": ["#", "!", "a", "\n", "@", "$", "."]}}
L["ts"] = L["js"]
L["cowel"] = {"comment": ["\\:", "\\: c", "\\*", "*\\", "\\* a *\\", "\\**\\", "\\*\\", "\\* \\: *\\", "\\:\r", "\\* \n *\\", "\\: }", "\\* ) *\\", "/* a */", "//"],
              "string": ['"', '"a"', '"\\""', "\\\\", "\\{", "\\}", "\\\"", "\\'", "\\'A B'", "\\''", "\\' A'", "\\'A '", "\\'a'", "\\'A\n'", "\\'A", "\\+0041", "\\+004", "\\+0001F600", "\\+00aBcdef", "\\+abcd", "\\+ABCD12", "\\+0041 x",
                         "\\", "\\\n", "\\\r\n", "\\\r", "\\ä", "\\😀", "\\1", "\\,", "\\)", "\\;", "\\ ", "\\\t", "\\'A-1'", "\\'ä'", '"\\a{}"', '"\\(x)"', "'"],
              "number": ["0b1", "0o7", "0x1F", "1e+5", "1E-5", "0xe+1", "1.5.2", ".5", ".", "..", "...", "-5", "- 5", "0x", "1.5e+3x", "1_0", "5a", "a5", "1.e5", "0b2", "0B1"],
              "word": ["unit", "null", "let", "fun", "true", "false", "infinity", "-infinity", "- infinity", "-infinityx", "let xyz = 5", "fun f", "fun\nf", "fun \\* *\\ f", "fun 1", "_a", "a_b", "äb", "fun(", "letx", "x\n(", "x {", "fun f(x)", "fun \\: c\n f"],
              "op": ["=", "==", "||", "&&", "|", "&", "!=", "!", "<=", ">=", "<", ">", "+", "-", "*", "/", "%", "~", "(", ")", "{", "}", ",", ";", ":", "[", "]", "#", "$", "===", "<<", "?"],
              "other": ["\\a", "\\a(", "\\a{", "\\a(b){c}", "\\a(b", "\\a{b", "\\ab{}", "\\a (b)", "\\a() {}", "\\(", "\\(a)", "\\(a", "\\( ", "\\ a\n", "\\ a", "\\ a + b\nc", "\\ a{\n}b\n", "a = b", '"a" = b', '"a" == b', "a == b", "a=", "=b", "...",
                        "a, b", "(a)", "((a), b)", "{a}", "{", "}", "(", ")", ",", ";", ";,", ";)", ";}", "a(b)", "a{b}", "a(b){c}", "a \\* x *\\ (b)", "a \\* x *\\ = b", '"a\\\n" = 1', '"\\b" = 1', '"\\: \n" = 1', "\\_x", "\\ \n", "\\\n", "\n", "\r\n",
                        "\\ x \ny", "ä", "€", "{{}}", "\\{{}", "a b", "a 1", "a \"b\""],
              "alpha": {"other": ["\\", "a", "(", ")", "{", "}", ",", "=", ";", "\"", " ", "\n"], "string": ["\\", "'", "A", "+", "0", "\"", " ", "\n"], "comment": ["\\", "*", ":", "\n", "a", "("], "word": ["\\", "(", "let", "fun", " ", "a", ")", "\n"],
                        "number": ["\\(", "0", "1", ".", "e", "+", "x", ")"], "op": ["\\(", "=", "!", "<", "-", "infinity", ")"]}}
L["markdown"] = {"comment": ["<!--", "-->", "<!-- a -->", "<!-->", "<!--->", "<!-- *", "--!>", "<!", "--", "<!-- a\n b -->", "<!-- <!-->", "<!-- <!-- -->", "*<!-- * -->*", "[<!-- b](c)", "# <!-- #", "a <!-- b\n\nc --> d"],
                 "string": ["\\*", "\\a", "\\", "\\\\", "\\`", "&amp;", "&#65;", "&#x4F;", "&#X4f;", "&;", "&#;", "&#xg;", "&a b;", "&", "```", "``", "`", "`a`", "``a`b``", "` `", "`a", "````", "~~~", "~~~~", "~~", "``` a`", "```a", "   ```", "    ```",
                            "```\n", "\n```\n", "\n~~~ \n", "\n```` \t\n", "``` x\na\n```\n", "~~~\n```\n~~~\n"],
                 "other": ["# ", "## a", "#", "#######", "#a", "# a #", "# a \\#", "# a#", "# #", "   # a", "    # a", "#\ta", "***", "---", "___", "===", "* * *", "- - -a", "--", "- a", "+ a", "* a", "1. a", "1) a", "12345678901. a", "1.a", "-a", "      - a", "> a",
                           ">", ">a", "> > a", "> # a", "> - a", ">     a", ">```", "   > a", "    a", "\ta", "   a", "\n", "\r\n", "\n\n", "\r", " ", "\t", "*a*", "**a**", "***a***", "****a****", "_a_", "__a__", "a_b_c", "*a**b*", "**a*b*c**", "*a `*` b*",
                           "*a ` b*", "* a *", "*a *", "_a_b", "*a\\*b*", "*", "_", "**", "a", "b", "ä_b_", "1_a_", "<a:b>", "<a@b>", "<a>", "<a b:c>", "<>", "<:>", "<", ">", "[a](b)", "[a]( b)", "[a](<b c>)", "[a](b \"c\")", "[a](b(c))", "[a]()", "[]()", "[a] (b)",
                           "[a](b", "[a", "[[a]](b)", "[a\\](b)", "![a](b)", "![](b)", "![a]", "!", "![", "[![a](b)](c)", "[*a*](b)", "[a](b\\)c)", "](", ")", "(", "]", "[a](<b", "[", "#\n", "`", "\\#", "[a `](b)`", "äöü"],
                 "alpha": {"other": ["*", "_", "a", " ", "`", "\\", "[", "](", ")", "<", ":>", "!"], "comment": ["<!--", "-", ">", "!", "a", "\n", "*", "#", " "], "string": ["`", "~", "a", "\n", " ", "&", ";", "#", "x"]}}
L["markdown"]["alpha"]["word"] = ["#", " ", "-", "\n", ">", "1", ".", "\t", "=", "a", "*"]
L["yaml"] = {"comment": ["#", "# c", " # c", "# c\n", " #", "\t# c\n", "a#b", "##", "# \"a\"\n", "%YAML 1.2 # c\n", "#\r", " # c\r\n", "%a\t#b\n", "# c\nk: v\n"],
             "string": ['"', "'", '"a"', "'a'", "'a''b'", "''", '""', "\\", "\\n", "\\x41", "\\x4", "\\u12", "\\u1234", "\\U0001F600", "\\q", '\\"', "\\\n", "\\\r\n",
                        "\\ ", "\\\t", "\\/", "\\ä", '"\n  a"', "'\n  a'", "|\n", ">\n", "|-\n", ">+2\n", "|2-\n", "|\n  a\n  b\n", ": |\n  a\n\n  b\nc", "- >\n   a\n  b\n",
                        "|  # c\n  a\n", "|2\n    a\n", "\n  a", "\n   b", "\n \n", "|9", ">1+", "|+-", "|0\n", "| a\n", '"a": ', "'a' : ", '"a"b', "a: 'x' # c\n",
                        "|\r\n  a\r\n", "\n\n", "- |\n a\n - b\n", "k: !t |\n  a\n", "? |\n  a\n: b\n", '"\\', "|\n\ta\n", "|\n a\n"],
             "number": [".inf", "-.inf", "+.Inf", ".NaN", "-.nan", "0o7", "0O17", "0o8", "0x", "20:30", "20:30:15", "1:2:", "1:", "1:a", "+1", "-1", "-1.5e3", "1e+5", "1E-5", "1.e5",
                        "1 2", "1a", "1 # c", "1: 2", "0b102", "0xFg", ".5", "5.", "-", "- 1", "-.5", "+.5", "0x-1", "-0x1", "k: 1\n", "[1, 2]", "1]", "1,2", ".INF", "1:30:", "1:30:1:2"],
             "word": ["a", "null", "~", "NULL", "Null", "nULL", "true", "True", "yes", "off", "ON", "a b", "a: b", "a:b", "a :", "key: value\n", "a", "b", "x1", "null ", "true: false\n",
                      "null:", "yes # c\n", "NaN", "&a", "&a b", "*a", "*a : b\n", "!t", "!t a", "!!str", "!!str a", "!e!t", "!e!", "!<a:b>", "!<a", "!", "&", "*", "!a!b!c", "! a", "&a &b c",
                      "!!", "&a\n", "!t\n", "!<\n", "&a: b\n", "!ä", "&ä b", "!e-1!x%20", "a: &x\n", "- &x !y z\n", "%TAG ! x:y\n", "%", "%\n"],
             "op": ["[", "]", "{", "}", ",", ":", ": ", ":\n", "-", "- ", "-\n", "?", "? ", "?\n", "[a, b]", "{a: b}", "{a: b, c: d}", "[]", "{}", "[a: b]", "{? a : b}", "[? a]", "{a}", "{: b}",
                    "{a:}", "[a]: b\n", "{\"a\":b}", "---", "---\n", "...", "...\n", "--- a\n", "---a", "... # c\n", "--- # c\n", "\n---\n", "\n...\n", "- - a\n", "? - a\n", ": - a\n", "a: - b\n",
                    "[\n a,\n # c\n b]\n", "- [a", "{[", "}]", "[{a: [b", "|", ">", "@", "`", "=", "[a]b\n", "[\"a\"]", "{a: |\n", "[,]", "{,}", "{a:,b}", "--- |\n  a\n", "--- >\n"],
             "other": ["\v", "\f", "\0", "$", "^", "(", ")", "+", ";", "<", "\n%a\n", "\n  ", "\t", " \t", "\n\t"],
             "alpha": {"comment": ["#", " ", "a", ":", "\n", '"', "%", "\t"], "string": ['"', "'", "\\", "\n", "a", " ", ":", "x", "|"],
                       "number": ["1", "0", ".", "x", ":", "-", "e", " ", "inf"], "word": ["a", ":", " ", "!", "&", "*", "<", ">", "\n"],
                       "op": ["[", "]", "{", "}", ",", ":", "?", "a", " ", "-", "\n"], "other": ["|", "\n", " ", "a", "-", ":", "\r", "#"]}}


L["yaml"]["string"] += ['"a\\"b": c', "'a''b': c", '"a: b": c', "'a # b': c", '"\\": ', '"a\\\\": b', '"a"b: c', "- 'a'': b': c", '? "a" : b', "\"a\" \"b\": c"]
L["json"] = {"comment": ["//", "// c", "//\n", "// c\n", "/*", "*/", "/* a */", "/**/", "/***/", "/", "//\r", "// c\u2028", "/*/", "# c"],
             "string": ['"', '"a"', '""', '"a', '\\', '\\"', '\\\\', "\\n", "\\u12Fd", "\\u12", "\\u12g4", "\\u", "\\x", "\\/", "\\b", "\\f", "\\r", "\\t", "\\'",
                        '"\n', '"\r', '"\v', '"\f', '"\t', '"\0', '"\x1f', '"\x7f', '"a\vb"', '"a\tb"', "'a'", "a", "\v", '"a\\', '"\\u123', '"\x0e"', '"k\\nx":', '"k\tx":',
                        '"k\v":', '"k"', '"k":', '"\\q":'],
             "number": ["0", "-1", "-", "01", "00", "-01", "1.", ".5", "1.5", "1e5", "1e", "1E+", "e", "E5", "e-", ".", "-.", "+1", "1.e5", "0.0", "-0", "--1", "1-1", "0x1",
                        "1_0", "1e5.5", "12", "-.5e1"],
             "word": ["true", "false", "null", "True", "nul", "nulls", "true1", "null_", "NaN", "Infinity", "a", "a b", "_", "$", "tru", "else", "ä", "null null"],
             "op": ["{", "}", "[", "]", ",", ":", "{}", "[]", "{,", "[,", "{:", '{"a"', '{"a":', '{"a":1', '{"a":1,', '{"a" "b"', '{"a":}', "[1 2]", "[1,", "]]", "}}", "{[", "[{",
                    '{"a":1 "b"', "{1", "{a", "{null:", ";", "=", "(", ")", "*", "{{", "[}", "{]", "[:", '{"a"::', '{"a":[', '{"a":{'],
             "other": [" ", "\n", "\t", "\r\n", "\v", "\f", "\0", "€", "\u00a0", "@", "&", "<", "`"],
             "alpha": {"comment": ["/", "*", "\n", "{", '"', "a", "1"], "string": ['"', "\\", "u", "1", "\n", "\v", "\t", ":", "{"], "number": ["-", "0", "1", ".", "e", "+", " ", "["],
                       "word": ["null", "a", " ", ",", "[", "1", "_"], "op": ["{", "}", "[", "]", ",", ":", '"k"', "1", "a"]}}
L["jsonc"] = L["json"]
# beginnings of texts behind which the same lexemes mean something else
CTX = {"json": ["{", "[", "{\"a\":", "{\"a\"", "{\"", "[\"", "\"", "[[", "{\"a\":[", "[{", "{\"a\":1,", "1 ", "//", "{/*a*/"],
       "css": ["a{", "a{b:", "@m ", "@m{", "a{b:c(", "a[", "a,", "a{b{", "@m a{b:", "a:", "/**/", "a{--b:"],
       "bash": ["$(", "\"$(", "\"", "${", "${a", "${a:", "$((", "<(", "`", "a ", "a=", "[[ ", "((", "case a in ", "if ", "'a'", "a | ", "$'", "$\"", "{ ", "f() { ", "\"${a"],
       "js": ["`${", "`", "/", "a=/", "(", "){", "a ", "<a>", "<a b=", "<a b={", "<a>{", "<a ", "=> ", "return ", "1 ", "a.", "/[", "({", "class a{", "a?.", "`a${b}", "</", "<>"],
       "ts": ["`${", "`", "/", "a=/", "(", "a: ", "<a>", "a<", "(a:", "type a=", "=> ", "a ", "/[", "class a{", "@", "<a b={"],
       "html": ["<a ", "<a b=", "<a b=\"", "<a b='", "<!", "<!--", "</", "<script>", "<style>", "<style>a{", "<style>a{b:", "<textarea>", "<title>", "<p>", "&", "<![CDATA[",
                "<script>`", "<script>/", "<a b=c "],
       "xml": ["<a ", "<a b=", "<a b=\"", "<a b='", "<!", "<!--", "</", "<?", "<?xml ", "<?xml version=", "<![CDATA[", "<!DOCTYPE ", "<!DOCTYPE a [", "<a>", "&", "<!ELEMENT ", "<a/"],
       "cpp": ["#", "#define ", "#if ", "#include ", "# a ", "R\"(", "R\"x(", "L", "u8", "\"", "'", "a.", "::", "[[", "@", "auto ", "export ", "import ", "module "],
       "c": ["#", "#define ", "#if ", "#include ", "# a ", "L", "u8", "\"", "'", "a.", "[["],
       "rust": ["r#\"", "b\"", "'", "a!(", "#[", "/*/*", "1.", "\"", "b'", "r#"],
       "python": ["f'", "rb'", "'", "b\"", "\"\"\"", "r'", "1.", "f\"\"\"", "br\"\"\"", "@", "\\\n"],
       "java": ["@", "'", "\"", "\"\"\"\n", "1.", "a.", "/*", "@a."],
       "kotlin": ["@", "'", "\"", "\"\"\"", "\"${", "\"$", "\"\"\"${", "/*/*", "`", "1.", "\"a${b}", "a@", "\"${\"${", "\"\"\"a$"],
       "lua": ["--", "--[[", "[[", "[=[", "\"", "'", "1.", "a.", "<", "--[=["],
       "llvm": ["%", "@", "\"", "c\"", "0x", "/*", "!", "#", "i", "; "],
       "nasm": ["%", "%define ", "a: ", "mov ", ".", "$", "'", "`", "1", "db ", "mov eax, ", "\n", "lock ", "a equ ", "times 2 "],
       "cowel": ["\\a", "\\a[", "\\a{", "\\a(", "\\a(b=", "\\a(b=\"", "\\:", "\\{", "\\a(b={", "\\a[b=", "\\a(b)", "\\a(\"", "\\a(b,", "\\a(b=c(", "\\a{\\b(", "\\*", "\\a(1", "\\a(b=\\c("],
       "ebnf": ["(*", "'", "\"", "a = ", "?", "(", "a=b;"],
       "tex": ["\\", "\\a[", "\\a{", "%", "$", "#", "\\begin{"],
       "latex": ["\\", "\\a[", "\\a{", "%", "$", "#", "\\begin{"],
       "diff": ["+", "-", "@@", "*", "--- ", "+++ ", " "],
       "markdown": ["# ", "- ", "> ", "1. ", "    ", "```\n", "~~~\n", "*", "**", "[", "[a](", "[a](<", "`", "<!--", "<", "![", "a\n", "\n", "_", "> - ", "[a](b \""],
       "yaml": ["k: ", "- ", "[", "{", "{a: ", "{a", "? ", "|\n", "k: |\n  ", "- >\n  ", "\"", "'", "--- ", "...\n", "%", "!", "&", "[{", "[a: ", "  ", "- - ", "- k: ", "k:\n  ", "- |\n a\n", "{? ", "a\n", "[\n"],
       "json": ["[", "{", "{\"a\":", "\"", "[1,", "{\"a\":1,"], "jsonc": ["[", "{", "{\"a\":", "\"", "//", "/*"]}

CTX["jsonc"] = CTX["json"]


def spec_words(lang):
    """The words which the specification of the language names."""
    out = set()
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', open(os.path.join(vlib.SPEC, SPEC[lang])).read()):
        s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        if 0 < len(s) <= 20 and " " not in s:
            out.add(s)
    return out


def words(lang):
    out = set(L[lang].get("kw", []))
    for s in spec_words(lang):
        if all(c.isalnum() or c in "_-$.@%!#" for c in s) and any(c.isalpha() for c in s):
            out.add(s)
    for s in streams.source_lexemes(lang):
        if s and all(c.isalnum() or c in "_-$.@%!#" for c in s) and any(c.isalpha() for c in s):
            out.add(s)
    return sorted(out)


def numerals():
    """Every radix prefix with a digit of each kind, exponents with digits of each kind, and suffixes."""
    out = ["0" + p + d + e for p in "bBoOdDtTqQyYxXhH" for d in "012789afgFG" for e in ("", "1")]
    out += ["$" + d for d in "0129afgFG"] + ["$0" + d for d in "019afgFG"]
    out += [m + e + s + d for m in ("1", "1.5", "0x1", "0x1.8") for e in "eEpP" for s in ("", "+", "-") for d in "089a"]
    out += [m + c for m in ("1", "19", "1.5", "0x1", "01f") for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'%"]
    return out


def literals(lang):
    return sorted(s for s in streams.source_lexemes(lang) | spec_words(lang) if s.isascii() and 0 < len(s) <= 20)


_cache = {}


def lexemes(lang):
    if lang not in _cache:
        d = {f: list(L[lang].get(f, [])) for f in FEATURES}
        if d["number"]:
            d["number"] += NUMS
        d["kw"] = words(lang)
        d["src"] = literals(lang)
        d["wide"] = WIDE
        _cache[lang] = d
    return _cache[lang]


def mixed(lang, n, r, focus=None):
    """Sequences of lexemes; a share of `focus` if given."""
    d = lexemes(lang)
    groups = [g for g in d if d[g]]
    fs = [f for f in FEATURES if d[f]] or ["src"]
    out = []
    for _ in range(n):
        f = focus if focus and d.get(focus) else r.choice(fs)
        s = r.choice(CTX[lang]) if CTX.get(lang) and r.random() < .25 else ""
        gap = r.choice([0, 1, 1, 2])
        for _ in range(r.choice([1, 2, 3, 3, 4, 5, 6, 8])):
            k = r.random()
            g = f if k < .6 else r.choice(groups) if k < .97 else "wide"
            if f == "word" and k < .3 and d["kw"]:
                g = "kw"
            s += r.choice(d[g])
            if gap == 1:
                s += r.choice(GAPS)
            elif gap == 2:
                s += r.choice([" ", " ", "\n", " ", "\r\n"])
        out.append(s)
    return out


def exhaustive(lang, feature, limit, r):
    """Every sequence of pieces of the alphabet, shortest first; the last length that does not fit is sampled."""
    a = L[lang].get("alpha", {}).get(feature)
    out = []
    if not a:
        return out
    n = 1
    while len(out) < limit:
        c = len(a) ** n
        if c <= limit - len(out):
            out += ["".join(x) for x in itertools.product(a, repeat=n)]
        else:
            rest = limit - len(out)
            if c < 300000:
                out += ["".join(x) for x in r.sample(list(itertools.product(a, repeat=n)), rest)]
            else:
                out += ["".join(r.choice(a) for _ in range(n)) for _ in range(rest)]
        n += 1
        if n > 7:
            break
    return out


def keyword_texts(lang, r):
    out = []
    for w in words(lang):
        out += [w, w + " x", w + "x", "x" + w, w[:-1], w + "1", w.upper() if w.upper() != w else w.lower(), w + "(", w + ":", "." + w, w + "_",
                w + "\n"]
    for w in literals(lang):
        out.append(w)
    return out


# what is delimited: (feature, opening, closing)
SL, BC = ("comment", "//", "\n"), ("comment", "/*", "*/")
DQ, SQ = ("string", '"', '"'), ("string", "'", "'")
BRK = [("op", "(", ")"), ("op", "[", "]"), ("op", "{", "}")]
PAIRS = {
    "lua": [("comment", "--[%s[" % ("=" * k), "]%s]" % ("=" * k)) for k in (0, 1, 2, 3, 9)] + [("comment", "--", "\n"), DQ, SQ]
    + [("string", "[%s[" % ("=" * k), "]%s]" % ("=" * k)) for k in (0, 1, 2, 3, 9)] + BRK,
    "cpp": [SL, BC, DQ, SQ, ("string", 'R"(', ')"'), ("string", 'R"x(', ')x"'), ("string", 'R"xy(', ')xy"'), ("string", 'u8R"--(', ')--"'),
            ("string", 'R"abcdefghijklmnop(', ')abcdefghijklmnop"'), ("string", 'R"abcdefghijklmnopq(', ')abcdefghijklmnopq"'),
            ("string", 'L"', '"'), ("string", "u8'", "'"), ("comment", "#if 0\n", "\n#endif\n"), ("op", "#define a", "\n"), ("op", "#include ", "\n"),
            ("op", "[[", "]]"), ("op", "<:", ":>"), ("op", "<%", "%>")] + BRK,
    "js": [SL, BC, DQ, SQ, ("string", "`", "`"), ("string", "`a", "b`"), ("string", "${", "}"), ("string", "`${", "}`"), ("string", "`a${", "}b`"),
           ("string", "=/", "/"), ("string", "=/[", "]/g"), ("op", "<a>", "</a>"), ("op", "<a b={", "}/>"), ("op", "<a ", "/>"), ("op", "<a ", ">"), ("op", "<>", "</>"),
           ("op", "<a>{", "}</a>"), ("comment", "<!--", "\n"), ("comment", "{/*", "*/}"), ("string", '<a b="', '">')] + BRK,
    "python": [("comment", "#", "\n"), DQ, SQ, ("string", '"""', '"""'), ("string", "'''", "'''"), ("string", "f'", "'"), ("string", 'f"""', '"""'), ("string", "{", "}"),
               ("string", "f'{", "}'"), ("string", 'rb"', '"'), ("string", "r'''", "'''"), ("string", "{a:", "}"), ("string", "{{", "}}")] + BRK,
    "java": [SL, BC, DQ, SQ, ("string", '"""', '"""'), ("string", '"""\n', '"""'), ("comment", "/**", "*/"), ("op", "@a(", ")"), ("op", "<", ">")] + BRK,
    "kotlin": [SL, BC, DQ, SQ, ("string", '"""', '"""'), ("string", "${", "}"), ("string", '"${', '}"'), ("string", '"a${', '}b"'), ("string", '"""${', '}"""'), ("comment", "/*/*", "*/*/"),
               ("word", "`", "`"), ("op", "@a(", ")"), ("op", "?.", "!!")] + BRK,
    "rust": [SL, BC, DQ, SQ, ("comment", "/*/*", "*/*/"), ("string", 'r"', '"'), ("string", 'r#"', '"#'), ("string", 'r##"', '"##'), ("string", 'br###"', '"###'), ("string", 'b"', '"'),
             ("string", "b'", "'"), ("string", 'cr#"', '"#'), ("op", "#[", "]"), ("op", "#![", "]"), ("op", "a!(", ")"), ("op", "'a ", "'"), ("op", "|", "|"), ("comment", "/**", "*/"), ("comment", "//!", "\n")] + BRK,
    "nasm": [("comment", ";", "\n"), DQ, SQ, ("string", "`", "`"), ("op", "%[", "]"), ("op", "%{", "}"), ("word", "a:", "\n"), ("op", "%define ", "\n")] + BRK,
    "llvm": [("comment", ";", "\n"), BC, DQ, ("string", 'c"', '"'), ("string", '@"', '"'), ("string", '%"', '"'), ("op", "<", ">"), ("op", "!{", "}")] + BRK,
    "css": [BC, DQ, SQ, ("string", "url(", ")"), ("string", "URL('", "')"), ("op", "a{", "}"), ("op", "a{b:", ";}"), ("op", "@a ", ";"), ("op", "@a{", "}"), ("op", "a[", "]"), ("op", "a[b=", "]"),
            ("op", ":not(", ")"), ("op", "f(", ")"), ("comment", "<!--", "-->"), ("op", "a{b{", "}}"), ("op", "@a b{c:d{", "}}")] + BRK,
    "xml": [("comment", "<!--", "-->"), ("string", "<![CDATA[", "]]>"), ("other", "<?", "?>"), ("other", "<?a ", "?>"), ("other", "<?xml ", "?>"), ("other", "<!DOCTYPE a ", ">"), ("other", "<!DOCTYPE a [", "]>"),
            ("string", "<a b='", "'>"), ("string", '<a b="', '"/>'), ("other", "<a>", "</a>"), ("other", "<a ", ">"), ("other", "</a", ">"), ("other", "<!ELEMENT ", ">"), ("other", "<!ENTITY a '", "'>"),
            ("other", "<!ATTLIST ", ">"), ("other", "<!NOTATION ", ">"), ("other", "&", ";"), ("other", "&#", ";"), ("other", "&#x", ";"), ("other", "<![INCLUDE[", "]]>"), ("other", "%", ";"), DQ, SQ],
    "html": [("comment", "<!--", "-->"), ("comment", "<!--", "--!>"), ("comment", "<!--->", "-->"), ("string", "<![CDATA[", "]]>"), ("comment", "<?", ">"), ("other", "<!DOCTYPE ", ">"), ("comment", "<!a", ">"),
             ("string", "<a b='", "'>"), ("string", '<a b="', '"/>'), ("string", "<a b=", ">"), ("other", "<a>", "</a>"), ("other", "<a ", ">"), ("other", "</a", ">"), ("other", "&", ";"), ("other", "&#", ";"),
             ("other", "&#x", ";"), ("other", "<script>", "</script>"), ("other", "<style>", "</style>"), ("other", "<textarea>", "</textarea>"), ("other", "<title>", "</title >"), ("other", "<script a='", "'></script>")],
    "bash": [("comment", "#", "\n"), DQ, SQ, ("string", "$'", "'"), ("string", '$"', '"'), ("string", "`", "`"), ("string", '"$(', ')"'), ("string", '"${', '}"'), ("word", "$(", ")"), ("word", "${", "}"), ("word", "${a:-", "}"),
             ("word", "$((", "))"), ("op", "((", "))"), ("op", "[[ ", " ]]"), ("op", "[ ", " ]"), ("op", "<(", ")"), ("op", ">(", ")"), ("op", "{ ", "; }"), ("op", "case a in ", " esac"), ("op", "a=(", ")"),
             ("string", "<<A\n", "\nA\n"), ("string", "<<'A'\n", "\nA\n"), ("string", "<<-A\n", "\n\tA\n"), ("op", "if ", "; fi")] + BRK,
    "ebnf": [("comment", "(*", "*)"), ("comment", "(*(*", "*)*)"), DQ, SQ, ("string", "`", "`"), ("string", "?", "?"), ("op", "(/", "/)"), ("op", "(:", ":)"), ("word", "a = ", ";"), ("word", "a = ", ".")] + BRK,
    "tex": [("comment", "%", "\n"), ("other", "\\a{", "}"), ("other", "\\a[", "]"), ("other", "\\begin{a}", "\\end{a}"), ("other", "$", "$"), ("other", "$$", "$$"), ("other", "\\[", "\\]"), ("other", "\\(", "\\)"),
            ("other", "{", "}"), ("other", "\\begin{", "}"), ("other", "\\end*{", "}"), ("other", "\\verb|", "|")],
    "cowel": [("comment", "\\:", "\n"), ("comment", "\\*", "*\\"), ("string", '"', '"'), ("other", "\\a(", ")"), ("other", "\\a{", "}"), ("other", "\\a(b = ", ")"), ("other", "\\a(b){", "}"), ("other", "\\(", ")"),
              ("other", "\\ ", "\n"), ("string", "\\'", "'"), ("other", "(", ")"), ("other", "{", "}"), ("other", "\\a(b{", "})"), ("other", "\\a(b(", "))"), ("other", '\\a("', '" = 1)'), ("word", "\\(let a = ", ")"),
              ("word", "\\(fun a(", "))")],
    "markdown": [("string", "`" * k, "`" * k) for k in (1, 2, 3)] + [("string", "`" * k + "\n", "\n" + "`" * k + "\n") for k in (3, 4, 9, 10, 12)]
    + [("string", "~" * k + "\n", "\n" + "~" * k + "\n") for k in (3, 4, 10)] + [("string", "``` x\n", "\n   ```\n")]
    + [("other", "*" * k, "*" * k) for k in (1, 2, 3, 4)] + [("other", "_" * k, "_" * k) for k in (1, 2, 3)]
    + [("other", "[", "]()"), ("other", "[a](", ")"), ("other", "![", "]()"), ("other", "![](", ")"), ("other", "![a](<", ">)"), ("other", '[a](b "', '")'), ("other", "<a:", ">"), ("other", "<a@", ">"), ("comment", "<!--", "-->"),
       ("other", "# ", " #\n"), ("other", "> ", "\n"), ("other", "- ", "\n"), ("other", "1. ", "\n"), ("other", "[![", "](b)](c)"), ("other", "&", ";"), ("other", "\n\n    ", "\n"), ("other", "###### ", "\n"), ("other", "    ", "\n")],
    "yaml": [("comment", "#", "\n"), ("comment", " #", "\n"), DQ, SQ, ("op", "[", "]"), ("op", "{", "}"), ("op", "{a: ", "}"), ("string", '"a": "', '"\n'), ("string", "- '", "'\n"), ("string", "|\n  ", "\n"), ("string", "a: >-\n  ", "\nb"),
             ("word", "!<", ">"), ("word", "!", " "), ("word", "&", " "), ("word", "*", " "), ("other", "---\n", "...\n"), ("other", "%", "\n"), ("op", "- ", "\n"), ("op", "? ", "\n: "), ("op", "a: ", "\n"), ("op", "  a: ", "\n")],
    "json": [SL, BC, DQ] + BRK + [("op", '{"a":', "}"), ("op", '{"a":1,', "}"), ("string", '{"', '":1}'), ("string", '["', '"]')],
    "diff": [("other", "--- ", "\n+++ "), ("other", "@@ ", " @@"), ("other", "***", "\n"), ("other", "*** ", " ****\n"), ("other", "-", "\n"), ("other", "+", "\n"), ("other", " ", "\n"), ("other", "! ", "\n"), ("other", "--- a\n", "---\n")],
}
PAIRS["c"] = PAIRS["cpp"]
PAIRS["ts"] = PAIRS["js"]
PAIRS["jsonc"] = PAIRS["json"]
PAIRS["latex"] = PAIRS["tex"]
ASCII = "".join(chr(i) for i in range(32, 127))


def perturbed(d, r):
    """A delimiter, or something close to it."""
    k = r.random()
    if k < .3 or not d:
        return d
    p = r.randrange(len(d))
    if k < .5:
        return d[:p] + d[p] + d[p:]
    if k < .7:
        return d[:p] + d[p + 1:]
    if k < .8:
        return d[:p]
    if k < .9:
        return d[:p] + r.choice(ASCII) + d[p:]
    return d[:p] + r.choice(ASCII) + d[p + 1:]


def delimited(lang, n, r, focus=None):
    """Delimited things, nested into each other, with what is almost a delimiter in them, and anything right behind them."""
    ps = PAIRS.get(lang, [])
    if not ps:
        return []
    d = lexemes(lang)
    pieces = [x for g in d if g not in ("kw", "src") for x in d[g] if len(x) < 12]
    mine = [x for x in ps if x[0] == focus] or ps

    def char():
        k = r.random()
        return r.choice(ASCII) if k < .8 else r.choice(["\n", "\r\n", "\t", " ", "\\", "\v", "\f", "\0", "\x7f"]) if k < .95 else r.choice(WIDE)

    def body(depth, o, c):
        s = ""
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3, 4])):
            k = r.random()
            if k < .2:
                s += "a"
            elif k < .4:
                s += perturbed(c, r)
            elif k < .45:
                s += perturbed(o, r)
            elif k < .55:
                x = r.choice(ps)
                s += perturbed(x[r.choice([1, 2])], r)
            elif k < .65 and depth:
                s += one(depth - 1)
            elif k < .75:
                s += "\\" + r.choice(["", c[:1], o[:1], r.choice(ASCII)])
            elif k < .85:
                s += char()
            elif k < .95 and pieces:
                s += r.choice(pieces)
            else:
                s += " "
        return s

    def one(depth):
        _, o, c = r.choice(mine if r.random() < .75 else ps)
        k = r.random()
        end = c if k < .8 else "" if k < .87 else perturbed(c, r)
        return o + body(depth, o, c) + end

    out = []
    for _ in range(n):
        s = r.choice(["", "", "a", "a ", " ", "1", "=", "\n", char()])
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            s += one(r.choice([0, 1, 1, 2]))
            s += r.choice(["", "", "a", " ", "1", "\n", char(), char()])
        out.append(s)
    return out


def contexts(lang, n, r):
    """Lexemes in each context."""
    ctx = CTX.get(lang, [])
    d = lexemes(lang)
    pieces = sorted({x for g in d for x in d[g]})
    out = [c + x for c in ctx for x in pieces]
    if len(out) > n:
        out = r.sample(out, n)
    while ctx and len(out) < n:
        out.append(r.choice(ctx) + r.choice(ctx) + r.choice(pieces) + r.choice(GAPS) + r.choice(pieces))
    return out


def fragments(lang, n, r, size=160):
    """Pieces of the repository's own examples."""
    out = []
    fs = streams.corpus_files(lang)
    if not fs:
        return out
    texts = []
    for p in fs:
        try:
            texts.append(open(p, "rb").read().decode("utf-8"))
        except UnicodeDecodeError:
            pass
    for _ in range(n):
        s = r.choice(texts)
        if len(s) > size:
            lines = s.split("\n")
            k = r.randrange(len(lines))
            s = "\n".join(lines[k:k + r.choice([1, 2, 4, 8])])[:size * 2]
            if r.random() < .3 and s:
                s = s[r.randrange(len(s)):]
        out.append(s)
    return out


def mutate(s, pieces, r):
    p = r.randrange(len(s) + 1)
    k = r.random()
    if k < .3:
        return s[:p] + s[p + 1:]
    if k < .7:
        return s[:p] + r.choice(pieces) + s[p:]
    if k < .85:
        return s[:p]
    q = r.randrange(len(s) + 1)
    return s[:min(p, q)] + s[max(p, q):]


def texts(lang, n, tag, focus=None, keywords=True):
    """About n texts of a language: [(language, strict, bytes)]."""
    r = vlib.rng("lex-%s-%s" % (lang, tag))
    out = []
    if keywords and focus in (None, "word"):
        kt = keyword_texts(lang, r)
        out += kt if focus else r.sample(kt, min(len(kt), n))
    if focus in (None, "number") and L[lang].get("number"):
        ns = numerals()
        out += ns if focus else r.sample(ns, min(len(ns), n // 8))
    feats = [focus] if focus and L[lang].get("alpha", {}).get(focus) else [f for f in FEATURES]
    for f in feats:
        out += exhaustive(lang, f, n // 3 // len(feats) + 1 if not focus else n // 3, r)
    out += mixed(lang, n // 2, r, focus)
    out += delimited(lang, n // 2, r, focus)
    out += contexts(lang, n // 4, r)
    fr = fragments(lang, n // 8, r)
    d = lexemes(lang)
    pieces = [x for g in d for x in d[g]]
    out += fr + [mutate(s, pieces, r) for s in fr]
    res = []
    for s in dict.fromkeys(out):
        if lang == "html" and "js" not in lexchk.FINISHED and "<script" in s.lower():
            continue
        b = s.encode("utf-8", "surrogatepass")
        if len(b) <= 600 and lexchk.usable(b):
            res.append((lang, r.randrange(2), b))
    return res


OPEN = ["<script>", "<SCRIPT>", "<script a='b'>", "<script type=module >", "<style>", "<Style>", "<style media=\"x\">", "<style/>", "<script/>", "<scripts>",
        "<textarea>", "<title>", "<!--<script>", "<script\n>", "<script>\n", "<p><script>", "</script>", "<style >"]
CLOSE = ["</script>", "</SCRIPT>", "</script >", "</script\n>", "</scripts>", "</script", "</style>", "</STYLE>", "</style x>", "</style/>", "</styl", "</textarea>",
         "</title>", "", "-->", "</", "</script><p>", "</style><b>c</b>"]


def nested(n, tag):
    """HTML with the languages embedded in it."""
    r = vlib.rng("nested-" + tag)
    pools = {x: [s for _, _, s in texts(x, 3000, "nested-" + tag)] for x in ("js", "css", "html")}
    res = []
    for o in OPEN:
        for c in CLOSE:
            for body in ("", "a", "/*", "'", "//", "`${", "a{", "<a>", "<!--", "/a"):
                res.append(o + body + c)
    r.shuffle(res)
    res = res[:n // 3]
    while len(res) < n:
        s = ""
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.choice(["js", "js", "css", "html"])
            body = r.choice(pools[k]).decode("utf-8")[:200]
            if r.random() < 0.3 and body:
                at = r.randrange(len(body))
                body = body[:at] + r.choice(CLOSE) + body[at:]
            e = {"js": "script", "css": "style"}.get(k, r.choice(["script", "style", "p"]))
            s += r.choice(["", "", "a", "<b>", "<!-- c -->", "&amp;"])
            s += "<%s>" % e if r.random() < 0.7 else r.choice(OPEN)
            s += body + ("</%s>" % e if r.random() < 0.7 else r.choice(CLOSE)) + r.choice(["", "", "\n", "<i>x</i>", "text"])
        res.append(s)
    out = []
    for s in dict.fromkeys(res):
        b = s.encode("utf-8")
        if len(b) <= 800 and lexchk.usable(b):
            out.append(("html", r.randrange(2), b))
    return out
