"""What the recorders of cases share: catching outcomes and stuck calls, JSON shapes of instants."""
import datetime, os, signal, traceback

EPOCH = datetime.datetime(1970, 1, 1)
US = datetime.timedelta(microseconds=1)


class Stuck(BaseException):
    pass


def _alarm(*a):
    raise Stuck()


def call(f, limit=10):
    """-> (value, "") or (None, name of the exception)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)     # time of its own, so that a busy machine does not look like a hang
    signal.setitimer(signal.ITIMER_REAL, limit * 15)
    try:
        return f(), ""
    except Stuck:
        return None, "Stuck"
    except Exception as e:
        return None, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def inst(dt):
    """datetime -> <<day, second, microsecond>> of its own wall clock"""
    d = dt.replace(tzinfo=None) - EPOCH
    return [d.days, d.seconds, d.microseconds]


def off(td):
    return [td.days, td.seconds, td.microseconds]


def uninst(t):
    return EPOCH + datetime.timedelta(days=t[0], seconds=t[1], microseconds=t[2])


def collect(one, n):
    """n cases; one that could not be set up at all is a broken case"""
    res = []
    for _ in range(n):
        try:
            x = one()
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                raise
            x = {"k": "broken", "e": traceback.format_exc()[-600:]}
        if x:
            res.append(x)
    return res
