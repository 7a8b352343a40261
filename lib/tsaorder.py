"""The steps of the time series analysis."""
import sequence

NEEDS = [("tsa_interpolation", "tsa_spectral_index", "the series is interpolated before the index is computed")] + [
    (s, "tsa_interpolation", "%s works on the series before it is interpolated" % s) for s in ("tsa_stm", "tsa_fold", "tsa_polar")] + [
    (t, s, "%s uses the result of %s before it is computed" % (t, s)) for t in ("tsa_trend", "tsa_cat") for s in ("tsa_fold", "tsa_polar")]
SPOILS = [("tsa_standardize", s, "tsa_spectral_index", "%s works on series that are standardised already" % s)
          for s in ("tsa_stm", "tsa_fold", "tsa_polar", "tsa_trend", "tsa_cat", "tsa_interpolation")]


def judge(ctx, kind):
    ctx.rule(kind, "the steps of the time series analysis follow each other such that each finds what it is derived from")
    sequence.judge(ctx, ctx.prog, kind, NEEDS, SPOILS)
