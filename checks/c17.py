"""C17: keywords and names."""
import lexchk


def check():
    return lexchk.decide("C17", {"keyword", "name", "markup"}, "word", lexchk.WORDS, 1400)
