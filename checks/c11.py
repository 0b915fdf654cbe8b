"""C11: see properties.jsonl; decided by spec/JsonMachine.tla."""
import jsonchk


def check():
    return jsonchk.decide("C11", {"tokens"}, parser=False, highlight=True)
