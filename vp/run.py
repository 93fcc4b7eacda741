"""Processes with a time limit, whose children are ended with them."""
import os
import resource
import signal
import subprocess
import time


def limited(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


class Result:
    def __init__(self, rc, out, err, secs, timed_out):
        self.rc, self.out, self.err, self.secs, self.timed_out = rc, out, err, secs, timed_out

    @property
    def text(self):
        return self.out + self.err


def start(cmd, cwd=None, env=None, gb=None):
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace',
                            start_new_session=True, preexec_fn=limited(gb) if gb else None)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def finish(p, timeout, t0=None):
    t0 = t0 or time.time()
    try:
        out, err = p.communicate(timeout=timeout)
        return Result(p.returncode, out, err, time.time() - t0, False)
    except subprocess.TimeoutExpired:
        kill(p)
        out, err = p.communicate()
        return Result(-9, out or '', err or '', time.time() - t0, True)


def run(cmd, timeout, cwd=None, env=None, gb=None):
    t0 = time.time()
    return finish(start(cmd, cwd, env, gb), timeout, t0)
