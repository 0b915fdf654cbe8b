"""C23: diffs."""
import lexchk


def check():
    return lexchk.decide("C23", None, None, lexchk.DIFF, 9000)
