"""Small shared vocabulary: violations, skips and calls into the code under test."""

import contextlib
import io
import traceback


class Violation(Exception):
    """The property under check does not hold on the case being run."""

    def __init__(self, message, **details):
        super().__init__(message)
        self.message = message
        self.details = details


class Skip(Exception):
    """The case cannot be judged (counted as trivial, never as a violation)."""


def violate(message, **details):
    raise Violation(message, **details)


def require(cond, message, **details):
    if not cond:
        raise Violation(message, **details)


def call(what, fn, *args, **kwargs):
    """Runs the code under test on an input of its domain: an exception there is a
    violation of the property (and not an error of the harness)."""
    try:
        return fn(*args, **kwargs)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: numba raises SystemError and the like
        tb = traceback.format_exc(limit=-6)
        raise Violation(
            "%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]), traceback=tb
        ) from None


def must_raise(what, exc_types, fn, *args, **kwargs):
    """The code under test must reject this input with one of exc_types."""
    try:
        out = fn(*args, **kwargs)
    except exc_types:
        return
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        raise Violation(
            "%s raised %s instead of %s: %s"
            % (what, type(e).__name__, exc_types, str(e)[:300])
        ) from None
    raise Violation("%s was accepted instead of being rejected (returned %.80r)" % (what, out))


# Exceptions raised by the harness itself while it reads or rebuilds what the code did.
UNREADABLE = (AttributeError, KeyError, ImportError, TypeError, NotImplementedError)
INCONSISTENT = (IndexError, ValueError, ZeroDivisionError, RecursionError, OverflowError, FloatingPointError)


def guarded(check, case):
    """Runs a check. An internal that cannot be read any more (renamed, of another shape)
    makes the case a skip; a state that is read and makes no sense (an index out of range, an
    endless recursion) is a violation."""
    try:
        # progress bars and messages of verbose=True
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            return check(case) or {}
    except (Skip, Violation):
        raise
    except UNREADABLE as e:
        raise Skip("cannot be read: %s: %s" % (type(e).__name__, str(e)[:80])) from e
    except INCONSISTENT as e:
        raise Violation(
            "the observed state is inconsistent: %s: %s" % (type(e).__name__, str(e)[:200]), traceback=traceback.format_exc(limit=-6)
        ) from e
