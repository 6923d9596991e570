"""Run code of the simulator in forked children, so that nothing it leaves behind
(module state, caches, files) is seen by what runs next."""
import os
import pickle
import signal
import tempfile
import traceback

from . import core


def isolated(fn, cpu_s=20, tmp=None):
    """("ok", value) | ("exc", type name, message, traceback) | ("timeout",) | ("violation", message)

    `fn` runs in a child process; its value must pickle."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            over = []

            def on_prof(signum, frame):
                over.append(1)
                raise core.CaseTimeout()
            signal.signal(signal.SIGPROF, on_prof)
            # again and again: code in between may swallow the exception
            signal.setitimer(signal.ITIMER_PROF, cpu_s, .2)
            if tmp is not None:
                tempfile.tempdir = tmp
            try:
                out = ("ok", fn())
            except core.CaseTimeout:
                out = ("timeout",)
            except core.Violation as e:
                out = ("violation", str(e))
            except core.Skip as e:
                out = ("skip", str(e))
            except BaseException as e:
                out = ("exc", type(e).__name__, str(e)[:300], "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]))
            signal.setitimer(signal.ITIMER_PROF, 0)
            if over:
                out = ("timeout",)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.HarnessError("a child process ended without an answer")
    return pickle.loads(data)
