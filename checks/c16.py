"""C16: comments."""
import lexchk


def check():
    return lexchk.decide("C16", {"comment"}, "comment", lexchk.COMMENTS, 1400)
