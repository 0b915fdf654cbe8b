"""C26: Markdown."""
import lexchk


def check():
    return lexchk.decide("C26", None, None, ["markdown"], 9000)
