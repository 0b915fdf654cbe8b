"""C10: see properties.jsonl; decided by spec/JsonMachine.tla."""
import jsonchk


def check():
    return jsonchk.decide("C10", {"error"}, parser=True, highlight=False)
