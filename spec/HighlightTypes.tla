---------------------------- MODULE HighlightTypes ----------------------------
(* The highlight types of ulight: value, name of the enumerator, long name (the *)
(* enumerator in lower case with hyphens, as documented) and short name (the id  *)
(* used in HTML, which style sheets depend upon).  The values are part of the    *)
(* ABI (include/ulight/ulight.h).                                                *)
EXTENDS Integers, TLC

TypeTable == <<
  [v |-> 0, long |-> "", short |-> ""],
  [v |-> 1, long |-> "error", short |-> "err"],
  [v |-> 16, long |-> "comment", short |-> "cmt"],
  [v |-> 17, long |-> "comment-delim", short |-> "cmt_dlim"],
  [v |-> 18, long |-> "comment-doc", short |-> "cmt_doc"],
  [v |-> 19, long |-> "comment-doc-delim", short |-> "cmt_doc_dlim"],
  [v |-> 32, long |-> "value", short |-> "val"],
  [v |-> 33, long |-> "value-delim", short |-> "val_dlim"],
  [v |-> 34, long |-> "null", short |-> "null"],
  [v |-> 36, long |-> "bool", short |-> "bool"],
  [v |-> 48, long |-> "number", short |-> "num"],
  [v |-> 49, long |-> "number-delim", short |-> "num_dlim"],
  [v |-> 50, long |-> "number-decor", short |-> "num_deco"],
  [v |-> 56, long |-> "string", short |-> "str"],
  [v |-> 57, long |-> "string-delim", short |-> "str_dlim"],
  [v |-> 58, long |-> "string-decor", short |-> "str_deco"],
  [v |-> 60, long |-> "string-escape", short |-> "str_esc"],
  [v |-> 62, long |-> "string-interpolation", short |-> "str_intp"],
  [v |-> 63, long |-> "string-interpolation-delim", short |-> "str_intp_dlim"],
  [v |-> 64, long |-> "name", short |-> "name"],
  [v |-> 65, long |-> "name-decl", short |-> "name_decl"],
  [v |-> 66, long |-> "name-builtin", short |-> "name_pre"],
  [v |-> 67, long |-> "name-delim", short |-> "name_dlim"],
  [v |-> 68, long |-> "name-var", short |-> "name_var"],
  [v |-> 69, long |-> "name-var-decl", short |-> "name_var_decl"],
  [v |-> 70, long |-> "name-var-builtin", short |-> "name_var_pre"],
  [v |-> 71, long |-> "name-var-delim", short |-> "name_var_dlim"],
  [v |-> 72, long |-> "name-const", short |-> "name_cons"],
  [v |-> 73, long |-> "name-const-decl", short |-> "name_cons_decl"],
  [v |-> 74, long |-> "name-const-builtin", short |-> "name_cons_pre"],
  [v |-> 75, long |-> "name-const-delim", short |-> "name_cons_dlim"],
  [v |-> 76, long |-> "name-function", short |-> "name_fun"],
  [v |-> 77, long |-> "name-function-decl", short |-> "name_fun_decl"],
  [v |-> 78, long |-> "name-function-builtin", short |-> "name_fun_pre"],
  [v |-> 79, long |-> "name-function-delim", short |-> "name_fun_dlim"],
  [v |-> 80, long |-> "name-type", short |-> "name_type"],
  [v |-> 81, long |-> "name-type-decl", short |-> "name_type_decl"],
  [v |-> 82, long |-> "name-type-builtin", short |-> "name_type_pre"],
  [v |-> 83, long |-> "name-type-delim", short |-> "name_type_dlim"],
  [v |-> 84, long |-> "name-module", short |-> "name_mod"],
  [v |-> 85, long |-> "name-module-decl", short |-> "name_mod_decl"],
  [v |-> 86, long |-> "name-module-builtin", short |-> "name_mod_pre"],
  [v |-> 87, long |-> "name-module-delim", short |-> "name_mod_dlim"],
  [v |-> 88, long |-> "name-label", short |-> "name_labl"],
  [v |-> 89, long |-> "name-label-decl", short |-> "name_labl_decl"],
  [v |-> 90, long |-> "name-label-builtin", short |-> "name_labl_pre"],
  [v |-> 91, long |-> "name-label-delim", short |-> "name_labl_dlim"],
  [v |-> 92, long |-> "name-parameter", short |-> "name_para"],
  [v |-> 93, long |-> "name-parameter-decl", short |-> "name_para_decl"],
  [v |-> 94, long |-> "name-parameter-builtin", short |-> "name_para_pre"],
  [v |-> 95, long |-> "name-parameter-delim", short |-> "name_para_dlim"],
  [v |-> 96, long |-> "name-nonterminal", short |-> "name_nt"],
  [v |-> 97, long |-> "name-nonterminal-decl", short |-> "name_nt_decl"],
  [v |-> 98, long |-> "name-nonterminal-builtin", short |-> "name_nt_pre"],
  [v |-> 99, long |-> "name-nonterminal-delim", short |-> "name_nt_dlim"],
  [v |-> 100, long |-> "name-lifetime", short |-> "name_life"],
  [v |-> 101, long |-> "name-lifetime-decl", short |-> "name_life_decl"],
  [v |-> 102, long |-> "name-lifetime-builtin", short |-> "name_life_pre"],
  [v |-> 103, long |-> "name-lifetime-delim", short |-> "name_life_dlim"],
  [v |-> 104, long |-> "name-instruction", short |-> "name_inst"],
  [v |-> 105, long |-> "name-instruction-decl", short |-> "name_inst_decl"],
  [v |-> 106, long |-> "name-instruction-pseudo", short |-> "asm_inst_pre"],
  [v |-> 107, long |-> "name-instruction-delim", short |-> "asm_inst_dlim"],
  [v |-> 108, long |-> "name-attr", short |-> "name_attr"],
  [v |-> 109, long |-> "name-attr-decl", short |-> "name_attr_decl"],
  [v |-> 110, long |-> "name-attr-builtin", short |-> "name_attr_pre"],
  [v |-> 111, long |-> "name-attr-delim", short |-> "name_attr_dlim"],
  [v |-> 112, long |-> "name-shell-command", short |-> "name_cmd"],
  [v |-> 113, long |-> "name-shell-command-decl", short |-> "name_cmd_decl"],
  [v |-> 114, long |-> "name-shell-command-builtin", short |-> "sh_cmd_pre"],
  [v |-> 115, long |-> "name-shell-command-delim", short |-> "name_cmd_dlim"],
  [v |-> 116, long |-> "name-shell-option", short |-> "name_opt"],
  [v |-> 117, long |-> "name-shell-option-decl", short |-> "name_opt_decl"],
  [v |-> 118, long |-> "name-shell-option-builtin", short |-> "name_opt_pre"],
  [v |-> 119, long |-> "name-shell-option-delim", short |-> "name_opt_dlim"],
  [v |-> 120, long |-> "name-macro", short |-> "name_mac"],
  [v |-> 121, long |-> "name-macro-decl", short |-> "name_mac_decl"],
  [v |-> 122, long |-> "name-macro-builtin", short |-> "name_mac_pre"],
  [v |-> 123, long |-> "name-macro-delim", short |-> "name_mac_dlim"],
  [v |-> 124, long |-> "name-directive", short |-> "name_dirt"],
  [v |-> 125, long |-> "name-directive-decl", short |-> "name_dirt_decl"],
  [v |-> 126, long |-> "name-directive-builtin", short |-> "name_dirt_pre"],
  [v |-> 127, long |-> "name-directive-delim", short |-> "name_dirt_dlim"],
  [v |-> 144, long |-> "keyword", short |-> "kw"],
  [v |-> 145, long |-> "keyword-control", short |-> "kw_ctrl"],
  [v |-> 146, long |-> "keyword-type", short |-> "kw_type"],
  [v |-> 147, long |-> "keyword-op", short |-> "kw_op"],
  [v |-> 148, long |-> "keyword-this", short |-> "kw_this"],
  [v |-> 160, long |-> "diff-heading", short |-> "diff_head"],
  [v |-> 161, long |-> "diff-heading-delim", short |-> "diff_head_dlim"],
  [v |-> 162, long |-> "diff-heading-hunk", short |-> "diff_head_hunk"],
  [v |-> 163, long |-> "diff-heading-hunk-delim", short |-> "diff_head_hunk_dlim"],
  [v |-> 168, long |-> "diff-common", short |-> "diff_eq"],
  [v |-> 169, long |-> "diff-common-delim", short |-> "diff_eq_dlim"],
  [v |-> 170, long |-> "diff-deletion", short |-> "diff_del"],
  [v |-> 171, long |-> "diff-deletion-delim", short |-> "diff_del_dlim"],
  [v |-> 172, long |-> "diff-insertion", short |-> "diff_ins"],
  [v |-> 173, long |-> "diff-insertion-delim", short |-> "diff_ins_dlim"],
  [v |-> 174, long |-> "diff-modification", short |-> "diff_mod"],
  [v |-> 175, long |-> "diff-modification-delim", short |-> "diff_mod_dlim"],
  [v |-> 176, long |-> "markup-tag", short |-> "mk_tag"],
  [v |-> 177, long |-> "markup-tag-decl", short |-> "mk_tag_decl"],
  [v |-> 178, long |-> "markup-tag-builtin", short |-> "mk_tag_pre"],
  [v |-> 179, long |-> "markup-tag-delim", short |-> "mk_tag_dlim"],
  [v |-> 180, long |-> "markup-attr", short |-> "mk_attr"],
  [v |-> 181, long |-> "markup-attr-decl", short |-> "mk_attr_decl"],
  [v |-> 182, long |-> "markup-attr-builtin", short |-> "mk_attr_pre"],
  [v |-> 183, long |-> "markup-attr-delim", short |-> "mk_attr_dlim"],
  [v |-> 192, long |-> "text", short |-> "text"],
  [v |-> 193, long |-> "text-heading", short |-> "text_head"],
  [v |-> 194, long |-> "text-link", short |-> "text_link"],
  [v |-> 195, long |-> "text-mark", short |-> "text_mark"],
  [v |-> 196, long |-> "text-math", short |-> "text_math"],
  [v |-> 197, long |-> "text-subscript", short |-> "text_sub"],
  [v |-> 198, long |-> "text-superscript", short |-> "text_sup"],
  [v |-> 199, long |-> "text-quote", short |-> "text_quot"],
  [v |-> 200, long |-> "text-small", short |-> "text_smal"],
  [v |-> 208, long |-> "text-mono", short |-> "text_mono"],
  [v |-> 209, long |-> "text-code", short |-> "text_code"],
  [v |-> 210, long |-> "text-italic", short |-> "text_ital"],
  [v |-> 211, long |-> "text-emph", short |-> "text_emph"],
  [v |-> 212, long |-> "text-bold", short |-> "text_bold"],
  [v |-> 213, long |-> "text-strong", short |-> "text_stro"],
  [v |-> 214, long |-> "text-underline", short |-> "text_ulin"],
  [v |-> 215, long |-> "text-insertion", short |-> "text_ins"],
  [v |-> 216, long |-> "text-strikethrough", short |-> "text_strk"],
  [v |-> 217, long |-> "text-deletion", short |-> "text_del"],
  [v |-> 224, long |-> "symbol", short |-> "sym"],
  [v |-> 225, long |-> "symbol-punc", short |-> "sym_punc"],
  [v |-> 226, long |-> "symbol-op", short |-> "sym_op"],
  [v |-> 227, long |-> "symbol-formatting", short |-> "sym_fmt"],
  [v |-> 228, long |-> "symbol-bracket", short |-> "sym_bket"],
  [v |-> 229, long |-> "symbol-parens", short |-> "sym_par"],
  [v |-> 230, long |-> "symbol-square", short |-> "sym_sqr"],
  [v |-> 231, long |-> "symbol-brace", short |-> "sym_brac"]
>>

TypeValues == { TypeTable[i].v : i \in DOMAIN TypeTable }

(* Types which a token may carry: everything but "none". *)
TokenTypes == TypeValues \ {0}

Entry(v) == TypeTable[CHOOSE i \in DOMAIN TypeTable : TypeTable[i].v = v]
LongName  == [v \in 0 .. 255 |-> IF v \in TokenTypes THEN Entry(v).long ELSE ""]
ShortName == [v \in 0 .. 255 |-> IF v \in TokenTypes THEN Entry(v).short ELSE ""]

================================================================================
