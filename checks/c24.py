"""C24: HTML and XML."""
import lexchk


def check():
    return lexchk.decide("C24", None, None, lexchk.MARKUP, 5000)
