"""Build and drive the conformance harness (the real parser)."""
import json, os, subprocess, sys, threading, queue, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")

HANGS = [0]

class ToolError(Exception):
    pass

def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    return e

def build():
    """Build the harness against /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "conf-harness")

_COVER = []
def cover_binary():
    """The harness around a parser that counts its branches, or None."""
    if not _COVER:
        e = env()
        e["CARGO_TARGET_DIR"] = TARGET + "-cover"
        e["RUSTC_WRAPPER"] = os.path.join(VERIF, "harness", "covwrap.sh")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "harness"),
                           env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        _COVER.append(os.path.join(TARGET + "-cover", "debug", "conf-harness") if r.returncode == 0 else None)
    return _COVER[0]

def choose(cases, want, jobs=8, timeout=150):
    """Those of the cases that take rare branches, and pairs of them, of the parser (at most `want`)."""
    b = cover_binary()
    if b is None or not cases:
        return []
    chosen = [[] for _ in range(jobs)]
    def go(j):
        chunk = cases[j::jobs]
        n = want // jobs + 1
        try:
            r = subprocess.run([b], input="".join(json.dumps(c) + "\n" for c in chunk), text=True, encoding="utf-8",
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout,
                               env=dict(os.environ, CHOOSE=str(n)))
            ids = set(json.loads(r.stdout))
        except (subprocess.TimeoutExpired, ValueError):
            ids = set(c["id"] for c in chunk[:n])     # one of them hangs or crashes
        chosen[j] = [c for c in chunk if c["id"] in ids]
    ths = [threading.Thread(target=go, args=(j,)) for j in range(jobs)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return [c for x in chosen for c in x]

def _worker(binary, cases, out, limit):
    todo = list(cases)
    while todo:
        p = subprocess.Popen([binary, str(limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, text=True, encoding="utf-8")
        def feed(p=p, todo=list(todo)):
            try:
                for c in todo:
                    p.stdin.write(json.dumps(c) + "\n")
                p.stdin.close()
            except (BrokenPipeError, ValueError, OSError):
                pass
        t = threading.Thread(target=feed, daemon=True)
        t.start()
        begun = None
        done = 0
        for line in p.stdout:
            try:
                v = json.loads(line)
            except ValueError:
                continue
            if "begin" in v:
                begun = v["begin"]
            else:
                out[v["id"]] = v
                if v["outcome"] == "hang":
                    HANGS[0] += 1
                done += 1
                begun = None
        p.wait()
        t.join(5)
        if begun is not None:
            out[begun] = {"id": begun, "outcome": "crash", "msg": "exit status %s" % p.returncode}
            done += 1
        if done == 0:
            raise ToolError("harness made no progress (exit %s)" % p.returncode)
        todo = todo[done:]
        if HANGS[0] >= 8:      # enough: do not wait for every further one
            for c in todo:
                out[c["id"]] = {"id": c["id"], "outcome": "skipped"}
            return

def run(binary, cases, limit=10, jobs=8):
    """Run all cases; returns {id: observation}."""
    out = {}
    jobs = max(1, min(jobs, (len(cases) + 49) // 50))
    errs = []
    ths = []
    for j in range(jobs):
        def go(chunk=cases[j::jobs]):
            try:
                _worker(binary, chunk, out, limit)
            except Exception as e:  # reported below
                errs.append(e)
        t = threading.Thread(target=go)
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    missing = [c["id"] for c in cases if c["id"] not in out]
    if missing:
        raise ToolError("no observation for %d cases, first %s" % (len(missing), missing[0]))
    return out
