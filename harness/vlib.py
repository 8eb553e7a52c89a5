"""Shared machinery of the checks: TLC runs, trace encoding, trace validation, reporting.

A check is: (1) TLC explores the area's specification and prints behaviours, (2) the driver
replays those (and seeded random ones) on the real code and records every observation,
(3) TLC validates the recorded traces against the specification.  The verdict is always TLC's.
"""
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


# ---------------------------------------------------------------------- build
def build():
    src = os.path.join(VERIF, "lib", "Num.java")
    out = os.path.join(BUILD, "Num.class")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="numbuild")
    try:
        subprocess.run(["javac", "-cp", TLAJARS.split(":")[0], "-d", tmp, src], check=True)
        for f in os.listdir(tmp):
            os.replace(os.path.join(tmp, f), os.path.join(BUILD, f)) if False else \
                shutil.copy(os.path.join(tmp, f), os.path.join(BUILD, f))
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------- encoding
def num(x):
    """A real number as the string the Num module reads."""
    import numpy as np
    x = float(x)
    if np.isnan(x):
        return "nan"
    if np.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def enc(v):
    import numpy as np
    if v is None:
        return "none"
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return num(v)
    if isinstance(v, str):
        return v
    if isinstance(v, dict):
        return {str(k): enc(w) for k, w in v.items()}
    if isinstance(v, np.ndarray):
        return enc(v.tolist()) if v.dtype != object else [enc(w) for w in v]
    if isinstance(v, (list, tuple, set, range)):
        return [enc(w) for w in v]
    raise MachineryError("cannot encode %r" % type(v))


def vec(v):
    """A flat list of numbers."""
    import numpy as np
    a = np.asarray(v)
    if a.dtype == object:
        a = np.asarray([float(w) for w in a.ravel()])
    return [num(w) for w in a.ravel()]


def mat(v):
    """A list of rows of numbers (2-d)."""
    import numpy as np
    a = np.asarray(v, dtype=float)
    if a.ndim != 2:
        a = a.reshape((a.shape[0], -1)) if a.ndim else a.reshape((1, 1))
    return [[num(w) for w in r] for r in a]


def shape(v):
    import numpy as np
    return [int(k) for k in np.shape(v)]


# ------------------------------------------------------------------------ TLC
def tlc(module, cfg, env=None, workers=1, timeout=800, xmx="3g", deadlock=False, args=()):
    """Run TLC on specs/<module>.tla; returns (returncode, output)."""
    build()
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + xmx, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-cp", BUILD + ":" + TLAJARS, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-noGenerateSpecTE", "-config", os.path.join(SPECS, cfg)]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(args) + [os.path.join(SPECS, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, cwd=SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def short_err(out):
    i = out.find("Error:")
    return "\n".join(q[:300] for q in out[max(i, 0):].splitlines() if not q.startswith('"'))[:2500]


def tlc_counts(out):
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found", out):
        pass
    if m is None:
        return 0, 0
    return int(m.group(1)), int(m.group(2))


def tlc_printed(out):
    """Strings printed with PrintT."""
    res = []
    for line in out.splitlines():
        if line.startswith('"') and line.rstrip().endswith('"'):
            try:
                res.append(json.loads(line.strip()))
            except ValueError:
                pass
    return res


class Timeout(BaseException):
    pass


def _alarm(sig, frm):
    raise Timeout("scenario ran out of time")


SLOW = multiprocessing.Value("i", 0)


def _call(job):
    fn, sc, limit = job
    if SLOW.value >= 6:     # the code hangs: six times is enough
        return []
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    warnings.simplefilter("ignore")
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        try:
            evs = fn(sc)
        finally:
            sys.stdout.close()
            sys.stdout = so
        return evs
    except Timeout:
        with SLOW.get_lock():
            SLOW.value += 1
        return [{"op": "crash", "exc": "Timeout", "where": "scenario"}]
    except Exception as e:  # an observation the driver did not foresee
        return [{"op": "crash", "exc": type(e).__name__, "where": traceback.format_exc()[-1500:]}]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.ntraces = self.nevents = 0
        self.samples = []
        self.verdicts = []          # (verdict record, scenario)
        self.extra = {}
        self.assumptions = []
        self.known = load_known(pid)
        self.hits = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ model check
    def mc(self, module, cfg=None, workers=NPROC, timeout=800, args=(), xmx="8g", env=None, deadlock=False):
        """Explore a specification; it has to satisfy its own invariants."""
        cfg = cfg or module + ".cfg"
        rc, out = tlc(module, cfg, workers=workers, timeout=timeout, args=args, xmx=xmx, env=env,
                      deadlock=deadlock)
        if rc != 0:
            raise MachineryError("TLC on %s/%s: rc=%d\n%s" % (module, cfg, rc, short_err(out)))
        g, d = tlc_counts(out)
        self.states += d
        self.transitions += g
        mcs = self.extra.setdefault("spec_explorations", [])
        mcs.append({"module": module, "cfg": cfg, "generated": g, "distinct": d})
        return [json.loads(s[4:]) for s in tlc_printed(out) if s.startswith("GEN|")]

    # ------------------------------------------------------------------ drive
    def drive(self, fn, scens, limit=60, nproc=NPROC):
        """Run fn on every scenario in worker processes; fn returns the list of events."""
        jobs = [(fn, s, limit) for s in scens]
        if not jobs:
            return []
        with multiprocessing.get_context("fork").Pool(min(nproc, len(jobs))) as pool:
            res = pool.map(_call, jobs, chunksize=max(1, min(16, len(jobs) // (4 * nproc))))
        return list(zip(scens, res))

    # --------------------------------------------------------------- validate
    def validate(self, module, runs, cfg=None, timeout=800, nproc=NPROC):
        """Have TLC check recorded runs [(scenario, events)] against trace spec `module`."""
        cfg = cfg or "Trace.cfg"
        runs = [(s, ev) for s, ev in runs]
        if not runs:
            return
        work = tempfile.mkdtemp(prefix="traces")
        try:
            nch = min(nproc, len(runs))
            chunks = [[] for _ in range(nch)]
            load = [0] * nch
            for k, (s, ev) in sorted(enumerate(runs), key=lambda kv: -len(kv[1][1])):
                i = load.index(min(load))
                chunks[i].append(k)
                load[i] += len(ev) + 1
            procs = []
            for i, ch in enumerate(chunks):
                f = os.path.join(work, "t%d.ndjson" % i)
                index = []
                with open(f, "w") as fh:
                    for k in ch:
                        fh.write(json.dumps({"op": "reset", "sc": k}) + "\n")
                        index.append((k, -1))
                        for j, ev in enumerate(runs[k][1]):
                            fh.write(json.dumps(ev) + "\n")
                            index.append((k, j))
                procs.append((f, index))
            with multiprocessing.pool.ThreadPool(nch) as tp:
                outs = tp.map(lambda p: tlc(module, cfg, env={"TRACE": p[0]}, timeout=timeout), procs)
            for (f, index), (rc, out) in zip(procs, outs):
                g, d = tlc_counts(out)
                if rc != 0:
                    if "TLC threw an unexpected exception" in out or "Evaluating" in out or \
                            "Error: " in out and "OutOfMemory" not in out and rc != 124:
                        if os.environ.get("VERIF_DEBUG"):
                            print(out[-5000:])
                        self._unreadable(module, cfg, f, index, runs, out, timeout)
                        continue
                    raise MachineryError("TLC on %s: rc=%d\n%s" % (module, rc, short_err(out)))
                if d != len(index) + 1:
                    raise MachineryError("TLC on %s read %d of %d events\n%s" %
                                         (module, d - 1, len(index), out[-3000:]))
                self.states += d
                self.transitions += g
                self._collect(out, index, runs)
            self.ntraces += len(runs)
            self.nevents += sum(len(ev) for _, ev in runs)
            for s, ev in runs[:1] + runs[len(runs) // 2:len(runs) // 2 + 1]:
                if len(self.samples) < 4:
                    self.samples.append(json.loads(json.dumps({"scenario": enc_any(s), "events": ev[:4]})[:3000]
                                        if False else json.dumps(short({"scenario": enc_any(s), "events": ev[:3]}))))
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def _collect(self, out, index, runs):
        for s in tlc_printed(out):
            if s.startswith("V|"):
                v = json.loads(s[2:])
                k, j = index[v["ln"] - 1]
                v["sc"], v["ev"] = k, j
                self.verdicts.append((v, runs[k]))

    def _unreadable(self, module, cfg, f, index, runs, out, timeout):
        """TLC could not evaluate the spec on an event: report its run, and go on without it."""
        work = tempfile.mkdtemp(prefix="traces")
        bad = set()
        try:
            while True:
                ls = re.findall(r"/\\ l = (\d+)", out)
                ln = int(ls[-1]) if ls else 0
                if not ls or ln >= len(index):
                    raise MachineryError("TLC on %s\n%s" % (module, short_err(out)))
                k, j = index[ln]
                bad.add(k)
                i = out.find("Error:")
                v = {"ln": ln + 1, "prop": [self.pid], "clause": "observation outside the specification",
                     "info": {"event": short(runs[k][1][j]) if j >= 0 else "", "tlc": out[i:][:1500]},
                     "sc": k, "ev": j}
                self.verdicts.append((v, runs[k]))
                todo = [q for q in index if q[0] not in bad]
                self._collect(out, index, runs)
                if len(bad) >= 3 or not todo:
                    return
                # what precedes the event has been judged
                cut = [q for q in todo if index.index((q[0], -1)) > ln]
                if not cut:
                    return
                g = os.path.join(work, "u.ndjson")
                with open(g, "w") as fh:
                    for k2, j2 in cut:
                        fh.write(json.dumps({"op": "reset", "sc": k2} if j2 < 0 else runs[k2][1][j2]) + "\n")
                rc, out = tlc(module, cfg, env={"TRACE": g}, timeout=timeout)
                index = cut
                if rc == 0:
                    self._collect(out, index, runs)
                    return
        finally:
            shutil.rmtree(work, ignore_errors=True)

    # ----------------------------------------------------------------- finish
    def finish(self):
        mine, other = [], {}
        for v, run in self.verdicts:
            if self.pid in v["prop"]:
                mine.append((v, run))
            else:
                for p in v["prop"]:
                    other[p] = other.get(p, 0) + 1
        fresh = []
        for v, run in mine:
            k = match_known(self.known, v, run)
            if k is None:
                fresh.append((v, run))
            else:
                self.hits[k["id"]] = self.hits.get(k["id"], 0) + 1
        for k in self.known:
            if k.get("status", "open") == "open":
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        seen = set()
        os.makedirs(REPLAY, exist_ok=True)
        nrep = 0
        for v, run in fresh:
            key = v["clause"]
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(REPLAY, "%s-%d.json" % (self.pid, nrep))
            nrep += 1
            with open(path, "w") as fh:
                json.dump({"property": self.pid, "verdict": v, "scenario": enc_any(run[0]),
                           "events": run[1], "seed": self.seed, "tier": self.tier}, fh, indent=1)
            print("VIOLATION property=%s replay=%s   # %s %s" % (self.pid, path, v["clause"],
                                                                str(v.get("info", ""))[:300]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.ntraces, "events_validated": self.nevents,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        if other:
            cov["verdicts_for_other_properties"] = other
        if self.hits:
            cov["known_findings_hit"] = self.hits
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print("%s: %d traces, %d events, %d states, %d violations, %.1f s" %
              (self.pid, self.ntraces, self.nevents, self.states, len(fresh), time.time() - self.t0))
        return 1 if fresh else 0


def short(v, depth=0):
    if isinstance(v, dict):
        return {k: short(w, depth + 1) for k, w in list(v.items())[:14]}
    if isinstance(v, (list, tuple)):
        r = [short(w, depth + 1) for w in v[:8]]
        return r + ["..."] if len(v) > 8 else r
    if isinstance(v, str) and len(v) > 120:
        return v[:120] + "..."
    return v


def enc_any(v):
    try:
        return enc(v)
    except MachineryError:
        return repr(v)


# -------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == pid and k.get("status") == "open"]


def match_known(known, v, run):
    """A finding names the clause and the tag its scenario carries."""
    for k in known:
        if k["clause"] == v["clause"] and k["match"] in json.dumps(v.get("info", "")) + json.dumps(enc_any(run[0])):
            return k
    return None


def h(*a):
    """A stable 31-bit hash."""
    return int(hashlib.sha256(repr(a).encode()).hexdigest()[:8], 16) & 0x7FFFFFFF
