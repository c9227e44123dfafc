"""A pool of long-lived processes that run brel (from /repo's working tree) on request."""
import json, os, queue, select, subprocess, tempfile, threading, time
from common import REPO, PY, VERIF, scratch

WORKER = os.path.join(VERIF, "harness", "worker.py")


class Worker:
    def __init__(self, home=None, env=None):
        self.home = home or tempfile.mkdtemp(prefix="home.", dir=scratch())
        self.env, self.p = env or {}, None

    def start(self):
        e = dict(os.environ, HOME=self.home, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore",
                 PYTHONHASHSEED="0", no_proxy="*", LC_ALL="C.UTF-8", TMPDIR=scratch())
        for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
            e.pop(k, None)
        e.update(self.env)
        self.p = subprocess.Popen([PY, WORKER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.home, env=e)

    def call(self, req, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
            end, buf = time.time() + timeout, b""
            fd = self.p.stdout.fileno()
            while not buf.endswith(b"\n"):
                left = end - time.time()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    self.stop()
                    return {"crash": "TIMEOUT"}
                got = os.read(fd, 1 << 20)
                if not got:
                    self.stop()
                    return {"crash": "DIED"}
                buf += got
            return json.loads(buf)
        except (BrokenPipeError, OSError):
            self.stop()
            return {"crash": "DIED"}

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


def run_all(requests, n=8, timeout=60, fresh_every=None, workers=None):
    """Runs the requests (in order per worker) over n workers; results in the order of the requests."""
    results = [None] * len(requests)
    q = queue.Queue()
    for i, r in enumerate(requests):
        q.put((i, r))

    def loop(w):
        try:
            while True:
                try:
                    i, r = q.get_nowait()
                except queue.Empty:
                    return
                results[i] = w.call(r() if callable(r) else r, timeout)
        finally:
            w.stop()

    ws = workers or [Worker() for _ in range(min(n, max(1, len(requests))))]
    ts = [threading.Thread(target=loop, args=(w,)) for w in ws]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return results
