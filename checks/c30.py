"""C30: operators, punctuation and errors."""
import lexchk


def check():
    return lexchk.decide("C30", {"symbol", "error"}, "op", lexchk.SYMBOLS, 1400)
