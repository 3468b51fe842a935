"""Small property-based-testing harness shared by all checks.

A property module (props/cXX.py) provides

    ID, TITLE, RULE            strings
    shards(tier)               list of dicts  {"part", "devices", "mpi", "examples", ...}
    strategy(shard)            Hypothesis strategy producing JSON-serialisable cases (dicts)
    corpus(shard)              explicit corner cases which are run first
    check(case, ctx)           runs the code under test and compares with the oracle;
                               returns (nontrivial: bool, labels: list[str])

`check` signals a violation only through ctx.expect / ctx.close / ctx.sut (below).  Every other
exception is an error of the harness and makes the check exit with status 2.
"""
import contextlib
import os
import traceback

import numpy as np


class Violation(Exception):
    pass


class Ctx:
    """Per-case context.  In MPI mode violations of comparisons are collected (a rank must not leave
    the case before the collective operations of the case are finished), otherwise they are raised
    immediately so that the case ends."""

    def __init__(self, shard, collect=False, abort=None):
        self.shard = shard
        self.collect = collect
        self.failures = []
        self.abort = abort
        self.rank = 0
        self.size = 1
        self.comm = None

    def fail(self, msg):
        if self.collect:
            self.failures.append(msg)
        else:
            raise Violation(msg)

    def expect(self, cond, msg):
        if not cond:
            self.fail(msg() if callable(msg) else msg)
            return False
        return True

    def close(self, got, want, what, rtol=1e-9, atol=1e-9):
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            self.fail("%s: shape %s, expected %s" % (what, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        with np.errstate(all="ignore"):
            d = np.abs(got - want)
            tol = atol + rtol * np.max(np.abs(want))
            bad = ~(d <= tol)
        if np.any(bad):
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            self.fail("%s: %d of %d entries differ from the oracle, first at %s: got %r expected %r (tolerance %.2e)"
                      % (what, int(bad.sum()), got.size, i, got[i].item(), want[i].item(), float(tol)))
            return False
        return True

    @contextlib.contextmanager
    def sut(self, what="call"):
        """Any exception raised inside is attributed to the code under test."""
        try:
            yield
        except (Violation, KeyboardInterrupt, SystemExit):
            raise
        except HarnessError:
            raise
        except BaseException as e:
            tb = traceback.format_exc(limit=-6)
            msg = "%s raised %s: %s\n%s" % (what, type(e).__name__, str(e)[:400], tb)
            if self.abort is not None:
                self.abort(msg)          # MPI: does not return
            raise Violation(msg)

    @contextlib.contextmanager
    def raises(self, types, what):
        """The code under test must raise one of `types` inside."""
        try:
            yield
        except types:
            return
        except (Violation, KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            self.fail("%s raised %s instead of %s" % (what, type(e).__name__, types))
            return
        self.fail("%s did not raise %s" % (what, types))


class HarnessError(Exception):
    pass


def rng(*ints):
    return np.random.default_rng([int(i) & 0xFFFFFFFF for i in ints])


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def scratch():
    """Scratch directory of this worker (created and removed by the runner)."""
    return os.environ["VERIF_SCRATCH"]
