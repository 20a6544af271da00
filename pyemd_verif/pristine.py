"""Runs a decomposition in a process in which nothing was decomposed before.

A helper process is forked off before the first decomposition; it forks a child for each request."""
import os
from multiprocessing import Pipe

from .core import HarnessError

_conn = None
_count = 0


def _serve(conn):
    import signal

    signal.signal(signal.SIGALRM, signal.SIG_IGN)
    signal.setitimer(signal.ITIMER_REAL, 0)
    while True:
        try:
            job = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    res = ("ok", _run(job))
                except Exception as e:
                    res = ("error", "{}: {}".format(type(e).__name__, e))
                conn.send((job["id"], res))
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status != 0:
            conn.send((job["id"], ("died", status)))


def _run(job):
    import PyEMD

    cls = getattr(PyEMD, job["cls"])
    obj = cls(**job["kw"])
    if job.get("seed") is not None:
        obj.noise_seed(job["seed"])
    return obj(job["S"], job["T"], max_imf=job["max_imf"])


def start():
    """Call before anything gets decomposed in this process."""
    global _conn
    if _conn is not None:
        return
    import scipy.interpolate  # noqa: F401

    import PyEMD  # noqa: F401

    here, there = Pipe()
    if os.fork() == 0:
        here.close()
        _serve(there)
    there.close()
    _conn = here


def run(**job):
    """("ok", result) of a decomposition in a pristine process, or ("error", message)."""
    global _count
    start()
    _count += 1
    job["id"] = _count
    _conn.send(job)
    while True:
        if not _conn.poll(120):
            raise HarnessError("no answer from the pristine process")
        # An answer to a job which was given up is left out
        which, res = _conn.recv()
        if which == _count:
            return res
