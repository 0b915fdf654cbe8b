"""C03: buffer sizes are invisible and the flush protocol is kept."""
import vlib
import streams


def check():
    run = vlib.Run("C03")
    thorough = vlib.TIER == "thorough"

    def calls(f, c, why):
        return [(f, 4096), (f, 1), (f, 2), (f, 3), (f, max(1, c)), (f, 7)]

    def html_of(n, x):
        return [(0, c, tc, 0) for c, tc in ((1, 1), (3, 2), (4096, 17), (2, 5000))] if n % 4 == 0 else []

    # more tokens in a nested language than it is buffered by, and about as many
    extra = []
    pieces = ((b"<p><script>", b"a;", b"</script><b>"), (b"<style>a{", b"b:", b"c}</style>d"), (b"<script>", b"'\\'\\\\'", b""))
    if thorough:
        for k in (509, 510, 511, 512, 513, 514, 1024, 1100):
            extra += [(vlib.LANGS["html"], pre + piece * k + post, [(f, c) for f in (0, 1) for c in (4096, 1024, 64, 7)]) for pre, piece, post in pieces]
    else:
        extra += [(vlib.LANGS["html"], pre + piece * k + post, [(f, c), (1 - f, 1000)])
                  for (pre, piece, post), k, f, c in zip(pieces, (512, 514, 511), (0, 1, 1), (4096, 1024, 64))]
    streams.standard(run, "bh", calls, 4 if not thorough else 150, 3000, max_samples=250, html_of=html_of, extra=extra)
    return run.finish()
