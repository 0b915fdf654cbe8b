"""C28: TeX, LaTeX, EBNF."""
import lexchk


def check():
    return lexchk.decide("C28", None, None, lexchk.DOCS, 4000)
