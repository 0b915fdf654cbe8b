"""C01: every source in every language yields a well-formed token stream."""
import vlib
import streams
from vlib import LANGS

# one unit of nesting per language (opener), used up to 1000 levels deep
NEST = {
    "cowel": ["\\a{", "\\a[", "{"], "cpp": ["{", "(", "["], "c": ["{", "("], "lua": ["{", "(", "["],
    "html": ["<a>", "<b"], "css": ["{", "(", "["], "js": ["`${", "{", "(", "[", "<a>", "<a b={", "${"],
    "ts": ["`${", "{", "(", "[", "<a>"], "bash": ["(", "$(", "${", "\"$(", "((", "`"],
    "json": ["[", "{\"a\":"], "jsonc": ["[", "{\"a\":", "/*"], "xml": ["<a>", "<a b='"],
    "tex": ["{", "\\a{", "$"], "latex": ["{", "\\begin{a}"], "nasm": ["(", "["], "ebnf": ["(", "[", "{", "(*"],
    "python": ["(", "[", "{", "f\"{", "f'{"], "kotlin": ["\"${", "{", "(", "/*"], "rust": ["{", "(", "[", "/*"],
    "llvm": ["{", "(", "[", "<"], "markdown": ["> ", "- ", "[", "*a ", "`"], "java": ["{", "(", "["],
    "yaml": ["[", "{", "- ", "? ", "a: "], "diff": ["+"], "txt": ["a"],
}


def check():
    run = vlib.Run("C01")
    thorough = vlib.TIER == "thorough"
    extra = []
    for l, os_ in sorted(NEST.items()):
        for o in os_:
            for n in (1, 50, 1000):
                # quadratic constructs are kept shorter
                m = min(n, 200) if o in ("[", "*a ", "<a b={", "<a>", "`${") and l in ("markdown", "js", "ts") else n
                src = (o * m).encode()
                extra.append((LANGS[l], src, [(n % 4, 3)]))
    streams.standard(run, "w", lambda f, c, why: [(f, c)], 16 if not thorough else 400, 3000, extra=extra)
    run.assumptions += ["nesting of constructs is at most 1000 levels deep",
                        "out-of-bounds accesses are those AddressSanitizer and the exact allocations show"]
    return run.finish()
