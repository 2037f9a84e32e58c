"""Run cases on the real code: `python drive.py MODE PROP IN.ndjson OUT.ndjson WORKERS`.
Each worker is a fork with a watchdog: a case that does not end is recorded
as "hang" and the rest goes on.  The order of the output is that of the input."""

import json
import mmap
import os
import select
import signal
import struct
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import observe  # noqa: E402
import modes  # noqa: E402

CASE_LIMIT = 10.0


def worker(run, cases, start, out_path, shared):
    with open(out_path, "a") as out:
        for i in range(start, len(cases)):
            shared[0:8] = struct.pack("q", i)
            shared[8:16] = struct.pack("d", time.monotonic())
            out.write(json.dumps(run(cases[i])) + "\n")
            if i % 64 == 0:
                out.flush()
        out.flush()
        shared[0:8] = struct.pack("q", len(cases))


def spawn(run, cases, start, out_path, shared):
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            worker(run, cases, start, out_path, shared)
            code = 0
        finally:
            os._exit(code)
    return pid


def drive(run, cases, workers, hang):
    """All results of run(case), in order."""
    n = max(1, min(workers, (len(cases) + 9) // 10))
    size = (len(cases) + n - 1) // n if cases else 0
    parts = [cases[k * size:(k + 1) * size] for k in range(n)]
    base = os.environ.get("VERIF_TMP", "/tmp")
    state = []
    for k, part in enumerate(parts):
        path = os.path.join(base, "drive.%d.%d" % (os.getpid(), k))
        open(path, "w").close()
        shared = mmap.mmap(-1, 16)
        shared[8:16] = struct.pack("d", time.monotonic())
        state.append([spawn(run, part, 0, path, shared), part, path, shared])
    alive = set(range(n))
    while alive:
        select.select([], [], [], 0.02)  # not time.sleep, which fails under a faked clock
        for k in list(alive):
            pid, part, path, shared = state[k]
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                at = struct.unpack("q", shared[0:8])[0]
                if status == 0:
                    alive.discard(k)
                    continue
                why = "died: %d" % status
            elif time.monotonic() - struct.unpack("d", shared[8:16])[0] > part[min(struct.unpack("q", shared[0:8])[0], len(part) - 1)].get("limit", CASE_LIMIT):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                why = "hang"
            else:
                continue
            # the case the worker stood at is lost: keep what was written, mark it, go on
            at = struct.unpack("q", shared[0:8])[0]
            with open(path) as f:
                lines = f.read().split("\n")[:-1]
            lines = lines[:at]
            resume = len(lines)
            if resume == at:
                lines.append(json.dumps(hang(part[at], why)))
                resume = at + 1
            with open(path, "w") as f:
                f.write("".join(x + "\n" for x in lines))
            shared[8:16] = struct.pack("d", time.monotonic())
            if resume >= len(part):
                alive.discard(k)
            else:
                state[k][0] = spawn(run, part, resume, path, shared)
    out = []
    for pid, part, path, shared in state:
        with open(path) as f:
            out += f.read().split("\n")[:-1]
        os.unlink(path)
    return out


def main():
    mode, prop, src, dst, workers = sys.argv[1:6]
    with open(src) as f:
        cases = [json.loads(x) for x in f]
    observe.load()
    run, hang = modes.MODES[mode](prop)
    lines = drive(run, cases, int(workers), hang)
    with open(dst, "w") as f:
        f.write("".join(x + "\n" for x in lines))


if __name__ == "__main__":
    main()
