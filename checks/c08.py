"""C08: see properties.jsonl; decided by spec/JsonMachine.tla."""
import jsonchk


def check():
    return jsonchk.decide("C08", {"verdict"}, parser=True, highlight=False)
