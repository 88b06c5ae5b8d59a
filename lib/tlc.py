"""Runs TLC on the modules of /verif/spec."""
import json, os, re, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

class Result:
    pass

def run(module, cfg, scratch, env=None, workers=8, timeout=800, heap="6g", extra=()):
    """Returns states, transitions, printed (list of values printed with PrintT as raw text),
    violated (name of a violated invariant or property, or None)."""
    n = 0
    while os.path.exists("%s/tlc%d" % (scratch, n)):
        n += 1
    meta = "%s/tlc%d" % (scratch, n)
    os.makedirs(meta)
    if "\n" in cfg:
        path = meta + "/model.cfg"
        open(path, "w").write(cfg)
    else:
        path = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-DTLA-Library=" + SPEC,
           "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta + "/states",
           "-noGenerateSpecTE", "-deadlock", "-config", path] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TLCError("TLC on %s: no result in %d s" % (module, timeout))
    out = p.stdout.decode("utf-8", "replace")
    r = Result()
    r.out = out
    r.wall = time.time() - t
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    r.transitions, r.states = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    r.printed = [l for l in out.splitlines() if l.startswith("<<") or l.startswith('"')]
    v = re.search(r"(?:Invariant|Action property|Temporal property) (\S+) is violated", out)
    if not v and "Temporal properties were violated" in out:
        v = re.search(r"(Temporal properties were violated)", out)
    r.violated = v.group(1) if v else None
    r.finished = "Model checking completed. No error has been found" in out or "Finished computing initial states" in out and p.returncode == 0
    if not r.violated and p.returncode != 0:
        raise TLCError("TLC on %s ended with %d\n%s" % (module, p.returncode, out[-3000:]))
    return r
