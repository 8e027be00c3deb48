"""Run TLC on a specification with sharded cases."""
import json, os, re, shutil, subprocess, tempfile, threading

from harness import BUILD, VERIF, ToolError

SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def _java(module, cfg, meta, extra_env, timeout, args=(), heap="2600m"):
    e = dict(os.environ)
    e.update(extra_env)
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss512m",
           "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Dsun.jnu.encoding=UTF-8",
           "-Djava.io.tmpdir=" + os.path.dirname(meta), "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "1", "-metadir", meta,
           "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, encoding="utf-8", errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout or b""
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
        raise ToolError("TLC timed out on %s\n%s" % (module, out[-2000:]))

def unprint(line):
    """Undo TLC's PrintT quoting of a string value."""
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1]
    out = []
    i = 0
    while i < len(line):
        c = line[i]
        if c == "\\" and i + 1 < len(line):
            n = line[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(n, n))
            i += 2
        else:
            out.append(c)
            i += 1
    return "".join(out)

class Result:
    def __init__(self):
        self.mismatches = []      # dicts printed with MISMATCH
        self.findings = []        # dicts printed with DEVIATION
        self.invariant = []       # (invariant name, case id, trace text)
        self.states = 0
        self.transitions = 0
        self.prints = []

def run(module, cases, jobs=8, timeout=800, cfg=None, env=None, weight=None, heap="2600m"):
    """Validate cases (list of dicts) with the trace spec `module`."""
    res = Result()
    if not cases:
        return res
    jobs = max(1, min(jobs, (len(cases) + 19) // 20))
    # balance the shards by size
    weight = weight or (lambda c: len(json.dumps(c)))
    shards = [[] for _ in range(jobs)]
    loads = [0] * jobs
    for c in sorted(cases, key=weight, reverse=True):
        j = loads.index(min(loads))
        shards[j].append(c)
        loads[j] += weight(c) + 40
    os.makedirs(BUILD, exist_ok=True)
    base = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    errs = []
    lock = threading.Lock()
    cfg = cfg or module + ".cfg"

    def go(j, shard):
        try:
            path = os.path.join(base, "c%d.ndjson" % j)
            with open(path, "w", encoding="utf-8") as f:
                for c in shard:
                    f.write(json.dumps(c) + "\n")
            ee = {"CASES": path}
            ee.update(env or {})
            rc, out = _java(module, cfg, os.path.join(base, "m%d" % j), ee, timeout, heap=heap)
            with lock:
                parse(out, rc, shard, res)
        except Exception as e:
            errs.append(e)
    ths = [threading.Thread(target=go, args=(j, s)) for j, s in enumerate(shards) if s]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    shutil.rmtree(base, ignore_errors=True)
    if errs:
        raise errs[0]
    return res

def error_text(out):
    i = out.find("\nError: ")
    return out[max(i, 0):][:1500] + "\n...\n" + out[-2500:]

def parse(out, rc, shard, res):
    for line in out.split("\n"):
        if line.startswith('"MISMATCH '):
            res.mismatches.append(json.loads(unprint(line)[len("MISMATCH "):]))
        elif line.startswith('"DEVIATION '):
            res.findings.append(json.loads(unprint(line)[len("DEVIATION "):]))
        elif line.startswith('"PRINT '):
            res.prints.append(json.loads(unprint(line)[len("PRINT "):]))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        raise ToolError("TLC did not finish (exit %s):\n%s" % (rc, error_text(out)))
    res.transitions += int(m.group(1)) - 1
    res.states += int(m.group(2))
    inv = re.search(r"Error: (?:Invariant|Action property) (\w+) is violated", out)
    if inv:
        ci = re.findall(r"/\\ c = (\d+)", out) or re.findall(r"/\\ i = (\d+)", out)
        idx = int(ci[-1]) - 1 if ci else 0
        res.invariant.append((inv.group(1), shard[min(idx, len(shard) - 1)]["id"], out[-4000:]))
    elif rc == 75 and "TLC was evaluating" in out:
        ci = re.findall(r"/\\ c = (\d+)", out) or re.findall(r"/\\ i = (\d+)", out)
        idx = int(ci[-1]) - 1 if ci else 0
        res.invariant.append(("Evaluable", shard[min(idx, len(shard) - 1)]["id"], error_text(out)))
    elif rc != 0:
        raise ToolError("TLC failed (exit %s):\n%s" % (rc, error_text(out)))

def chars(s):
    """A text as the specification represents it."""
    return list(s)
