"""C19: numbers."""
import lexchk


def check():
    return lexchk.decide("C19", {"number"}, "number", lexchk.NUMBERS, 1500)
