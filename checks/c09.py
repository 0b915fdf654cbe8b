"""C09: see properties.jsonl; decided by spec/JsonMachine.tla."""
import jsonchk


def check():
    return jsonchk.decide("C09", {"events"}, parser=True, highlight=False)
