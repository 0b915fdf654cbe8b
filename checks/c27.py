"""C27: YAML."""
import lexchk


def check():
    return lexchk.decide("C27", None, None, ["yaml"], 9000)
