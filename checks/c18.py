"""C18: strings and escape sequences."""
import lexchk


def check():
    return lexchk.decide("C18", {"string"}, "string", lexchk.STRINGS, 1500)
