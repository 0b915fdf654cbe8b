"""C15: languages embedded in HTML."""
import lexchk
import lexgen


def check():
    return lexchk.decide("C15", None, None, ["html"], 8000, make=lexgen.nested)
