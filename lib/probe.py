"""Builds mofmt from /repo and runs its public API on documents."""
import fcntl
import glob
import json
import os
import select
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CARGO = os.path.join(BUILD, "cargo")
PROBE = os.path.join(CARGO, "debug", "probe")
CLI = os.path.join(CARGO, "cli", "debug", "mofmt")
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def forget(directory):
    """Makes cargo build the crate again, whatever the time stamps say."""
    for path in glob.glob(os.path.join(directory, "debug", ".fingerprint", "mofmt-*")):
        shutil.rmtree(path, ignore_errors=True)


def build(cli=False):
    os.makedirs(CARGO, exist_ok=True)
    jobs = [(os.path.join(VERIF, "probe"), CARGO, [])]
    if cli:
        jobs = [(REPO, os.path.join(CARGO, "cli"), ["--bin", "mofmt"])]
    for cwd, target, extra in jobs:
        forget(target)
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", target] + extra,
                           cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("building failed:\n" + r.stderr[-3000:])


class Answers:
    """Runs the probe on one batch; a document that kills or blocks the probe
    is answered with {"panic": ...} and the rest is run by a new process."""

    def __init__(self, header, requests, limit):
        self.header, self.requests, self.limit = header, requests, limit

    def run(self):
        answers = []
        while len(answers) < len(self.requests):
            got, why = self.once(self.requests[len(answers):])
            answers.extend(got)
            if why is None:
                break
            answers.append({"errors": [], "panic": why, "dead": True})
        return answers

    def once(self, requests):
        p = subprocess.Popen([PROBE], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        data = (self.header + "".join(requests)).encode()
        os.set_blocking(p.stdin.fileno(), False)
        got, buf, sent, last = [], [], 0, time.time()
        why = None
        try:
            while len(got) < len(requests):
                want = [p.stdin] if sent < len(data) else []
                r, w, _ = select.select([p.stdout], want, [], 1.0)
                if w:
                    try:
                        sent += os.write(p.stdin.fileno(), data[sent:sent + 65536])
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        sent = len(data)
                if sent >= len(data) and not p.stdin.closed:
                    p.stdin.close()
                if r:
                    chunk = os.read(p.stdout.fileno(), 1 << 20)
                    if not chunk:
                        p.wait()
                        if len(got) < len(requests):
                            why = f"the process died (status {p.returncode})"
                        break
                    last = time.time()
                    first, *rest = chunk.split(b"\n")
                    buf.append(first)
                    for x in rest:
                        got.append(json.loads(b"".join(buf)))
                        buf = [x]
                elif time.time() - last > self.limit:
                    why = f"no answer within {self.limit} s"
                    break
        finally:
            p.kill()
            p.wait()
            if not p.stdin.closed:
                try:
                    p.stdin.close()
                except OSError:
                    pass
            p.stdout.close()
        return got, why


def request(flags, text, entry="StoredDefinition", name="doc.mo"):
    return f"{flags}\t{entry}\t{name}\t{text.encode().hex()}\n"


def ask(header, requests, limit=20):
    """Answers of the probe to all requests, in order."""
    n = max(1, min(CORES, len(requests) // 50 + 1))
    size = (len(requests) + n - 1) // n or 1
    batches = [requests[i:i + size] for i in range(0, len(requests), size)]
    with ThreadPoolExecutor(n) as pool:
        parts = list(pool.map(lambda b: Answers(header, b, limit).run(), batches))
    return [a for part in parts for a in part]
