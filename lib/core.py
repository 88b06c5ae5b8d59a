"""Frame of a check: builds the code, runs cases on it, lets the specification judge them,
repeats what was rejected, writes replay files and evidence."""
import json, os, random, shutil, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
import build, tlc

HERE = build.HERE

def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = build.scratch()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.assumptions, self.known = [], [], [], []
        self.extra = {}
        self.builders = {}
        self.dead = False

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def rng(self, *k):
        return random.Random("%d/%s" % (self.seed, "/".join(str(x) for x in (self.prop,) + k)))

    def left(self):
        return (840 if self.quick() else 7000) - (time.time() - self.t0)

    def program(self, name, kind="plain", **kw):
        if kind not in self.builders:
            self.builders[kind] = build.Builder(self.scratch, kind)
        return self.builders[kind].program(name, **kw)

    # ------------------------------------------------------------ running cases
    def execute(self, prog, cases, jobs=8, seconds=20, env=None, mode=()):
        """cases: list of lists of lines; returns id -> record (dict with ev)"""
        out = {}
        e = dict(os.environ)
        e.update({"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1", "UBSAN_OPTIONS": "exitcode=77",
                  "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"})
        e.update(env or {})
        lock = threading.Lock()
        it = iter(sorted(range(len(cases)), key=lambda i: i))
        bad = [0]
        def work(k):
            while True:
                with lock:
                    if bad[0] >= 12:
                        return
                    ids = []
                    for i in it:
                        ids.append(i)
                        if len(ids) >= max(1, min(50, len(cases) // (2 * jobs))):
                            break
                if not ids:
                    return
                inp = "".join("%d %d\n%s\n\n" % (i, seconds, "\n".join(cases[i])) for i in ids)
                d = "%s/run%d" % (self.scratch, k)
                p = subprocess.run([prog] + list(mode) + [d], input=inp.encode("latin-1"), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, env=e)
                text = p.stdout.decode("latin-1")
                for rec in self.split(text):
                    with lock:
                        out[rec["id"]] = rec
                        if rec["ev"] and rec["ev"][-1].get("st", "ok") != "ok":
                            bad[0] += 1
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work, range(jobs)))
        return out

    def split(self, text):
        recs, cur = [], []
        for line in text.split("\n"):
            cur.append(line)
            if line.startswith('{"e":"end"') and line.endswith("]}"):
                try:
                    recs.append(json.loads("\n".join(cur)))
                except ValueError:
                    # an event was cut off in the middle (crash while it was written)
                    head = cur[0]
                    whole = [l for l in cur[1:-1] if l.startswith("{") and l.endswith("},") and self.parses(l[:-1])]
                    recs.append(json.loads(head[:head.index("[") + 1] + "\n".join(whole) + "\n" + cur[-1]))
                cur = []
        return recs

    @staticmethod
    def parses(s):
        try:
            json.loads(s)
            return True
        except ValueError:
            return False

    # ------------------------------------------------------------ judging
    def judge(self, module, records, cfg=None, env=None, count=True):
        """records: list of dicts with id; returns id -> what the specification demands"""
        if not records:
            return {}
        n = 0
        while os.path.exists("%s/trace%d.ndjson" % (self.scratch, n)):
            n += 1
        path = "%s/trace%d.ndjson" % (self.scratch, n)
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r) + "\n")
        ev = {"TRACE": path}
        ev.update(env or {})
        r = tlc.run(module, cfg or "SPECIFICATION Spec\nPOSTCONDITION AllConsumed\n", self.scratch, env=ev,
                    timeout=max(60, self.left()))
        os.unlink(path)
        if "AllConsumed" in r.out and "violated" in r.out.split("AllConsumed")[-1]:
            raise tlc.TLCError("not all cases were consumed\n" + r.out[-2000:])
        self.states += r.states
        self.transitions += r.transitions
        if count:
            self.traces += len(records)
        rej = {}
        for l in r.printed:
            if l.startswith('<<"REJECT", '):
                i = int(l[len('<<"REJECT", '):].split(",")[0])
                rej[i] = l[len('<<"REJECT", '):]
        return rej

    def conform(self, prog, module, cases, seconds=20, env=None, mode=(), kind="run", label="", cfg=None):
        """cases: list of (lines, record) - record carries what the specification needs.
        Runs all, judges all, repeats the rejected ones alone, reports what is rejected again."""
        if self.dead:
            return
        def once(idx, jobs=8, sec=seconds):
            out = self.execute(prog, [cases[i][0] for i in idx], jobs=jobs, seconds=sec, env=env, mode=mode)
            recs = []
            for k, i in enumerate(idx):
                if k in out:
                    r = dict(cases[i][1])
                    r["id"] = i
                    r["ev"] = out[k]["ev"]
                    recs.append(r)
            return recs
        recs = once(range(len(cases)))
        rej = self.judge(module, recs, cfg)
        for r in recs:
            if len(self.samples) < 3 and r["id"] % 7 == 3 and len(json.dumps(r)) < 3000:
                self.samples.append(r)
        done = 0
        for i in sorted(rej, key=lambda i: sum(len(l) for l in cases[i][0])):
            if done >= 3:
                break
            again = once([i], 1, seconds * 3)
            rej2 = self.judge(module, again, cfg, count=False)
            if i in rej2:
                done += 1
                self.violation({"kind": kind, "label": label, "module": module, "lines": cases[i][0],
                                "record": again[0], "demanded": rej2[i]})
        if rej and not done:
            print("note: %d rejected cases were accepted when repeated" % len(rej))
        if len(recs) < len(cases) and not rej:
            raise RuntimeError("%d of %d cases gave no record" % (len(cases) - len(recs), len(cases)))
        if done:
            self.dead = True
        return recs

    # ------------------------------------------------------------ model checking of the design
    def model(self, module, cfg, env=None, workers=8, timeout=None, extra=()):
        r = tlc.run(module, cfg, self.scratch, env=env, workers=workers, timeout=timeout or max(60, self.left()), extra=extra)
        self.states += r.states
        self.transitions += r.transitions
        if r.violated:
            raise RuntimeError("the specification itself violates %s\n%s" % (r.violated, r.out[-3000:]))
        return r

    # ------------------------------------------------------------ findings
    def findings(self, prog):
        """Runs the recorded failing cases of this property on the code; a case that still fails is
        reported as a known finding."""
        cases = []
        for l in open(os.path.join(HERE, "known-findings.txt")):
            head = "known: property=%s " % self.prop
            if l.startswith(head):
                what, case = l[len(head):].rsplit(" | ", 1)
                cases.append((what, json.loads(case)))
        if not cases:
            return
        import gen
        out = self.execute(prog, [["P\t0\t" + esc(gen.query_text(k["q"])), "s\t0\t" + esc(k["doc"])] for w, k in cases], jobs=1)
        recs = [{"id": i, "q": cases[i][1]["q"], "qt": gen.query_text(cases[i][1]["q"]), "doc": cases[i][1]["doc"], "runs": 1, "ev": out[i]["ev"]}
                for i in sorted(out)]
        rej = self.judge("ConformRun", recs, count=False)
        for i in sorted(rej):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, cases[i][0]))
            self.known.append(cases[i][0])
        self.extra["known_findings"] = self.known

    # ------------------------------------------------------------ results
    def violation(self, replay):
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        k = len(self.violations)
        path = os.path.join(d, "%s-%d.json" % (self.prop, k))
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    def finish(self, exhaustive=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:3]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print("%s: %d states, %d transitions, %d recorded cases, %.1f s" %
              (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0

    def clean(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
