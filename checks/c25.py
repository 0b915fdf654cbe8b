"""C25: CSS."""
import lexchk


def check():
    return lexchk.decide("C25", None, None, ["css"], 8000)
