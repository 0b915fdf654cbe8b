"""C06: the coalesce flag merges exactly the adjacent tokens of equal type."""
import vlib
import streams


def check():
    run = vlib.Run("C06")
    thorough = vlib.TIER == "thorough"

    def calls(f, c, why):
        return [(0, 4096), (1, 4096), (1, max(1, c)), (1, 1), (1, 2), (1, 3), (2, 4096), (3, 4096), (3, 2)]

    streams.standard(run, "c", calls, 9 if not thorough else 200, 3000, max_samples=200)
    return run.finish()
