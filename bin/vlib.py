"""Machinery shared by the checks: building the harness, running its drivers,
TLC on design models and on recorded cases, evidence, verdicts."""
import concurrent.futures as cf
import fcntl
import json
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
VH = os.path.join(TARGET, "debug", "vh")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known_findings.txt")
CPUS = min(8, os.cpu_count() or 1)
GIB = 1 << 30


class ToolError(Exception):
    pass


def build():
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, RUSTFLAGS="--cfg torrent_verif", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    with open(os.path.join(TARGET, ".lock-check"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", TARGET],
                           cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("harness does not build:\n" + p.stdout[-4000:])


def known_findings():
    """KNOWN-FINDING lines: `known: property=<id> key=<key> <what fails>`."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Check:
    def __init__(self, pid):
        self.id = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.trans = self.traces = self.events = 0
        self.stages = []
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.corrupt_tried = self.corrupt_caught = 0
        self.actions = {}
        self.n = 0

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=1, heap="3g", timeout=None, extra=()):
        self.n += 1
        d = os.path.join(self.work, "tlc%d" % self.n)
        os.makedirs(d)
        cfg = os.path.join(d, module + ".cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", d, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
        out = os.path.join(d, "out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout or self.pick(600, 3000))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timed out on " + module)
        text = open(out, errors="replace").read()
        m = None
        for m in re.finditer(r"^(\d+) states generated, (\d+) distinct states found", text, re.M):
            pass
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, text, gen, dist

    def cfg(self, name, **consts):
        t = open(os.path.join(SPEC, name + ".cfg")).read()
        for k, v in consts.items():
            t, n = re.subn(r"(?m)(^|\s)%s\s*=\s*\S+" % k, lambda m: "%s%s = %s" % (m.group(1), k, v), t)
            if n != 1:
                raise ToolError("constant %s not in %s.cfg" % (k, name))
        return t

    def design(self, module, cfg=None, emit=None, workers=CPUS, extra=(), heap="6g", **consts):
        """Exhaustive check of the specification itself. With emit, returns the
        file of what TLC printed (one JSON value per line)."""
        t = time.time()
        text = self.cfg(cfg or module, **consts)
        rc, out, gen, dist = self.tlc(module, text, workers=workers, heap=heap, extra=extra)
        if rc != 0:
            out = "\n".join(x for x in out.split("\n") if not x.startswith('"@'))
            self.log_fail("design", out)
            raise ToolError("design check %s/%s fails with %d: %s" % (module, cfg, rc, out[-1200:]))
        if dist == 0:
            raise ToolError("design check %s explored nothing" % module)
        self.states += dist
        self.trans += gen
        path = None
        n = 0
        if emit:
            path = os.path.join(self.work, emit)
            seen = set()
            with open(path, "w") as f:
                for line in out.splitlines():
                    if line.startswith('"@'):
                        j = json.loads(line)[1:]
                        if j not in seen:
                            seen.add(j)
                            f.write(j + "\n")
                            n += 1
            if n == 0:
                raise ToolError("%s printed nothing" % module)
        self.stages.append({"stage": "design", "module": module, "cfg": cfg or module, "constants": consts,
                            "states": dist, "transitions": gen, "emitted": n, "s": round(time.time() - t, 1)})
        return path

    def log_fail(self, what, out):
        sys.stderr.write("[%s] %s failed:\n%s\n" % (self.id, what, out[-4000:]))

    # ------------------------------------------------------------ harness
    def drive(self, driver, n, inp=None, seed=None, env=None, timeout=None):
        """Runs a driver of the harness; returns its recorded cases."""
        seed = self.seed if seed is None else seed
        self.n += 1
        path = os.path.join(self.work, "%s-%d.trace" % (driver, self.n))
        cmd = [VH, driver, path, str(seed), str(n)] + ([inp] if inp is not None else [])
        src = {"driver": driver, "seed": seed, "n": n, "tier": self.tier}
        if inp is not None and os.path.exists(inp):
            src["input"] = os.path.basename(inp)
        elif inp is not None:
            src["arg"] = inp

        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (6 * GIB, 6 * GIB))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (8 * GIB, 8 * GIB))

        t = time.time()
        scratch = os.path.join(self.work, "cwd%d" % self.n)
        os.makedirs(scratch, exist_ok=True)
        with open(path + ".err", "w") as ef:
            try:
                p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limit, cwd=scratch,
                                   env=dict(os.environ, VERIF_TIER=self.tier, **(env or {})),
                                   timeout=timeout or self.pick(800, 3000))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                # (a call that hangs ends the driver itself, see rec.rs)
                raise ToolError("driver %s timed out" % driver)
        if rc == -signal.SIGKILL:
            raise ToolError("driver %s was killed" % driver)
        cases, pending = read_cases(path)
        if pending is not None:
            if rc == 97:
                pending["r"] = {"k": "hang"}
            elif rc != 0:
                pending["r"] = {"k": "abort", "code": rc}
            else:
                raise ToolError("driver %s left a call open" % driver)
        elif rc != 0:
            raise ToolError("driver %s fails with %d: %s" % (driver, rc, open(path + ".err").read()[-2000:]))
        if not cases:
            raise ToolError("driver %s recorded nothing" % driver)
        os.unlink(path)
        for i, c in enumerate(cases):
            c["src"] = i
        ne = sum(len(c["ev"]) for c in cases)
        self.stages.append({"stage": "record", "driver": driver, "seed": seed, "cases": len(cases),
                            "events": ne, "s": round(time.time() - t, 1)})
        return Cases(cases, src)

    # ---------------------------------------------------------- validation
    def _survey(self, module, cases, consts):
        """Which cases does the specification explain?  -> rejected indices"""
        env = {}
        self.n += 1
        shards = max(1, min(CPUS, len(cases) // 150, sum(len(c["ev"]) for c in cases) // 400))
        # spread the long cases evenly
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get("w", len(cases[i]["ev"])))
        parts = [order[k::shards] for k in range(shards)]

        def one(k):
            part = parts[k]
            f = os.path.join(self.work, "cases-%d-%d.ndjson" % (self.n, k))
            with open(f, "w") as h:
                for i in part:
                    h.write(json.dumps({"cfg": cases[i]["cfg"], "ev": cases[i]["ev"]}) + "\n")
            return part, f

        jobs = [one(k) for k in range(shards)]
        rejected = []
        gen = dist = 0

        def run(job):
            part, f = job
            rej = []
            g = d = 0
            while part:
                rc, out, gg, dd = self.tlc(module, self.cfg("Trace", **consts), env={"CASES": f})
                g += gg
                d += dd
                done = {int(x) for x in re.findall(r'^<<"DONE", (\d+)>>', out, re.M)}
                if rc in (0,):
                    rej += [part[i] for i in range(len(part)) if i + 1 not in done]
                    break
                if rc in (75, 76):
                    # an outcome the specification cannot even read: it is in a
                    # case not done; find it one by one (few are left)
                    bad, good = [], []
                    left = [part[i] for i in range(len(part)) if i + 1 not in done]
                    b = self._bisect(module, cases, left, consts)
                    if b is None:
                        raise ToolError("TLC error on %s: %s" % (module, out[-1200:]))
                    rej.append(b)
                    part = [i for i in left if i != b]
                    if len(rej) >= 3:
                        break
                    with open(f, "w") as h:
                        for i in part:
                            h.write(json.dumps({"cfg": cases[i]["cfg"], "ev": cases[i]["ev"]}) + "\n")
                    continue
                raise ToolError("TLC fails with %d on %s: %s" % (rc, module, out[-1200:]))
            os.unlink(f)
            return rej, g, d

        with cf.ThreadPoolExecutor(CPUS) as ex:
            for rej, g, d in ex.map(run, jobs):
                rejected += rej
                gen += g
                dist += d
        return sorted(rejected), gen, dist

    def _at(self, module, case, consts):
        """Position of the first unexplained event of one case (0: all fine)."""
        self.n += 1
        f = os.path.join(self.work, "case-%d-%d.ndjson" % (self.n, random.getrandbits(40)))
        open(f, "w").write(json.dumps({"cfg": case["cfg"], "ev": case["ev"]}) + "\n")
        rc, out, _, _ = self.tlc(module, self.cfg("TraceAt", **consts), env={"CASES": f})
        os.unlink(f)
        if rc == 0:
            return 0, out
        if rc in (11, 75, 76):
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            return (int(ls[-1]) if ls else 1), out
        raise ToolError("TLC fails with %d on %s: %s" % (rc, module, out[-1200:]))

    def _bisect(self, module, cases, idx, consts):
        """One case of idx on which TLC reports an evaluation error."""
        def bad(part):
            self.n += 1
            f = os.path.join(self.work, "bis-%d-%d.ndjson" % (self.n, random.getrandbits(40)))
            with open(f, "w") as h:
                for i in part:
                    h.write(json.dumps({"cfg": cases[i]["cfg"], "ev": cases[i]["ev"]}) + "\n")
            rc, _, _, _ = self.tlc(module, self.cfg("Trace", **consts), env={"CASES": f})
            os.unlink(f)
            return rc in (75, 76)
        while len(idx) > 1:
            h = len(idx) // 2
            idx = idx[:h] if bad(idx[:h]) else idx[h:]
        return idx[0] if idx and bad(idx) else None

    def validate(self, module, cases, corrupt=24, known=None, samples=1, **consts):
        """Every recorded case must be explained by the specification."""
        t = time.time()
        rejected, gen, dist = self._survey(module, cases.list, consts)
        self.states += dist
        self.trans += gen
        self.traces += len(cases.list)
        ne = 0
        for c in cases.list:
            ne += len(c["ev"])
            for e in c["ev"]:
                a = e.get("f", "?")
                self.actions[a] = self.actions.get(a, 0) + 1
        self.events += ne
        kn = known_findings()
        for n, i in enumerate(rejected):
            case = cases.list[i]
            if known:
                key = known(case)
                if key and (self.id, key) in kn:
                    print("KNOWN-FINDING: property=%s %s" % (self.id, kn[(self.id, key)]))
                    continue
            if len(self.violations) >= 3:
                break
            at, out = self._at(module, case, consts)
            if at == 0:
                raise ToolError("TLC accepts case %d alone, but not among others" % i)
            self.violation(module, cases.src, case, at, out, consts)
        st = {"stage": "validate", "module": module, "cases": len(cases.list), "events": ne,
              "states": dist, "rejected": len(rejected)}
        good = [c for i, c in enumerate(cases.list) if i not in set(rejected)]
        for c in sorted(good, key=lambda c: abs(len(json.dumps(c)) - 700))[:samples]:
            s = {"cfg": c["cfg"], "ev": c["ev"][:6]}
            if len(json.dumps(s)) < 6000:
                self.samples.append({"driver": cases.src["driver"], "case": s})
        if corrupt and good and not rejected:
            rng = random.Random(self.seed)
            small = [c for c in good if len(json.dumps(c)) < 60000]
            bad = []
            for _ in range(corrupt * 3):
                if len(bad) == corrupt or not small:
                    break
                c = corrupted(rng, rng.choice(small))
                if c:
                    bad.append(c)
            if bad:
                caught = 0
                for part in [bad]:
                    caught += self._corrupt_caught(module, part, consts)
                self.corrupt_tried += len(bad)
                self.corrupt_caught += caught
                st["corrupted"] = len(bad)
                st["corrupted_rejected"] = caught
                if caught == 0:
                    raise ToolError("no corrupted outcome is rejected by %s" % module)
        st["s"] = round(time.time() - t, 1)
        self.stages.append(st)

    def _corrupt_caught(self, module, bad, consts):
        self.n += 1
        left = list(range(len(bad)))
        caught = 0
        while left:
            f = os.path.join(self.work, "bad-%d.ndjson" % self.n)
            self.n += 1
            with open(f, "w") as h:
                for i in left:
                    h.write(json.dumps({"cfg": bad[i]["cfg"], "ev": bad[i]["ev"]}) + "\n")
            rc, out, _, _ = self.tlc(module, self.cfg("Trace", **consts), env={"CASES": f})
            os.unlink(f)
            done = {int(x) for x in re.findall(r'^<<"DONE", (\d+)>>', out, re.M)}
            if rc == 0:
                return caught + len(left) - len(done)
            if rc in (75, 76):
                # one is unreadable, thus rejected; go on without those settled
                m = None
                for m in re.finditer(r"^/\\ c = (\d+)", out, re.M):
                    pass
                caught += 1
                drop = {int(m.group(1))} if m else {next(i + 1 for i in range(len(left)) if i + 1 not in done)}
                left = [x for k, x in enumerate(left) if k + 1 not in drop and k + 1 not in done]
                continue
            raise ToolError("TLC fails with %d on corrupted cases of %s: %s" % (rc, module, out[-2000:]))
        return caught

    def violation(self, module, src, case, at, out, consts=None):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d-%d.json" % (self.id, module, self.seed, len(self.violations)))
        tail = out[out.find("Error:"):][:3000] if "Error:" in out else out[-1200:]
        json.dump({"property": self.id, "module": module, "consts": consts or {}, "source": src,
                   "case_no": case.get("src"), "event_no": at,
                   "event": case["ev"][at - 1] if 0 < at <= len(case["ev"]) else None,
                   "case": {"cfg": case["cfg"], "ev": case["ev"][:at] if at else case["ev"]},
                   "tlc": tail}, open(path, "w"), indent=1)
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.id, path))
        ev = json.dumps(case["ev"][at - 1]) if 0 < at <= len(case["ev"]) else "?"
        print("  event %d of case %s (driver %s): %s" % (at, case.get("src"), src.get("driver"), ev[:600]))
        sys.stdout.flush()

    # -------------------------------------------------------------- verdict
    def finish(self):
        ev = {
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.trans,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events, "events_by_kind": self.actions,
                "corrupted_outcomes": self.corrupt_tried, "corrupted_outcomes_rejected": self.corrupt_caught,
                "stages": self.stages, "samples": self.samples[:4],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.%d" % (self.id, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(d, self.id + ".json"))

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)


class Cases:
    def __init__(self, lst, src):
        self.list = lst
        self.src = src


def read_cases(path):
    cases, cur, pending = [], None, None
    with open(path, errors="replace") as f:
        for line in f:
            try:
                j = json.loads(line)
            except ValueError:
                break               # cut off in the middle of a line
            if "new" in j:
                cur = {"cfg": j["new"], "ev": []}
                cases.append(cur)
            elif "op" in j:
                pending = dict(j["op"])
                if cur is None:
                    cur = {"cfg": {}, "ev": []}
                    cases.append(cur)
                cur["ev"].append(pending)
            elif "r" in j:
                pending["r"] = j["r"]
                pending = None
    return cases, pending


def leaves(j, path=()):
    if isinstance(j, dict):
        for k, v in j.items():
            yield from leaves(v, path + (k,))
    elif isinstance(j, list):
        if j and all(isinstance(x, int) and not isinstance(x, bool) for x in j):
            yield path
        for i, v in enumerate(j):
            yield from leaves(v, path + (i,))
    else:
        yield path


def corrupted(rng, case):
    """The case with one piece of one outcome changed."""
    c = json.loads(json.dumps({"cfg": case["cfg"], "ev": case["ev"], "src": case.get("src")}))
    evs = [i for i, e in enumerate(c["ev"]) if e["r"].get("k") in ("ok", "err")]
    if not evs:
        return None
    e = c["ev"][rng.choice(evs)]
    ps = list(leaves(e["r"]))
    if not ps:
        return None
    p = rng.choice(ps)
    cur = e["r"]
    for k in p[:-1]:
        cur = cur[k]
    v = cur[p[-1]]
    if isinstance(v, bool):
        cur[p[-1]] = not v
    elif isinstance(v, int):
        cur[p[-1]] = v + 1
    elif isinstance(v, str):
        cur[p[-1]] = {"ok": "err", "err": "panic"}.get(v, v + "x")
    elif isinstance(v, list):
        cur[p[-1]] = v[:-1]
    else:
        return None
    return c


def main(pid, fn):
    k = Check(pid)
    try:
        build()
        fn(k)
        k.finish()
        if k.violations:
            return 1
        print("OK property=%s tier=%s states=%d traces=%d events=%d corrupted %d/%d rejected %.1fs" % (
            pid, k.tier, k.states, k.traces, k.events, k.corrupt_caught, k.corrupt_tried, time.time() - k.t0))
        return 0
    except ToolError as e:
        if k.violations:
            # what was found stands, whatever failed afterwards
            k.finish()
            return 1
        sys.stderr.write("ERROR property=%s %s\n" % (pid, e))
        return 2
    finally:
        k.clean()
