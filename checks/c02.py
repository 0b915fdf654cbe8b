"""C02: HTML output reproduces the source, with one element per token."""
import vlib
import streams


def check():
    run = vlib.Run("C02")
    thorough = vlib.TIER == "thorough"

    def html_of(n, x):
        tc = [1, 2, 3, 7, 16, 64, 1000, 4096][n % 8]
        return [(n % 4, [4096, 1, 2, 5][n // 4 % 4], tc, n % 7)]

    streams.standard(run, "h", None, 6 if not thorough else 150, 3000, max_samples=500, html_of=html_of)
    return run.finish()
