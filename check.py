#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo, records what the real code does, and has
TLC check the recorded behaviour against the TLA+ specification (plus the models behind it).

usage: check.py <property> [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import PROPS  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NFILES = 8


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)


def repo_dir():
    """where the harness crates take the library from (the path dependency in their Cargo.toml)"""
    m = re.search(r'path = "([^"]*)/jagua-rs"', open(os.path.join(HERE, "harness", "Cargo.toml")).read())
    return os.path.normpath(os.path.join(HERE, "harness", m[1]))


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in (repo_dir(), os.path.join(HERE, "harness"), os.path.join(HERE, "harness-lbf")):
        for d, sub, fs in os.walk(top):
            sub[:] = sorted(x for x in sub if not x.startswith(("target", ".")))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".rs", ".toml", ".lock"))]
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build(crate, profile, features=""):
    """builds a harness crate against the current sources; returns the executable"""
    tdir = os.path.join(HERE, crate, "target" + ("-" + features if features else ""))
    # cargo looks at time stamps only: when the sources differ from those of the last build here, start it afresh
    h, stamp = source_hash(), os.path.join(tdir, "source-hash-" + profile)
    if os.path.isdir(tdir) and (not os.path.exists(stamp) or open(stamp).read() != h):
        for pkg in (["jagua-rs", "lbf", "vl"] if crate.endswith("lbf") else ["jagua-rs", "vh"]):
            sh(["cargo", "clean", "--offline", "--profile", profile, "--target-dir", tdir, "-p", pkg],
               cwd=os.path.join(HERE, crate), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(stamp):
            os.remove(stamp)
    cmd = ["cargo", "build", "--offline", "--locked", "--profile", profile, "--target-dir", tdir]
    if features:
        cmd += ["--features", features]
    p = sh(cmd, cwd=os.path.join(HERE, crate), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("build failed:\n" + p.stdout[-4000:])
    open(stamp, "w").write(h)
    return os.path.join(tdir, profile, "vl" if crate.endswith("lbf") else "vh")


def total(path):
    """An observation that is not a number of the specification's range (not-a-number, infinite) is an event no
    specification allows: it is handed to TLC as such, instead of as a value TLC cannot read."""
    lines = open(path).read().splitlines()
    bad = re.compile(r'\bnull\b|(?<![\w."-])-?\d{10,}')
    out = []
    for x in lines:
        if bad.search(x):
            def walk(v):
                if isinstance(v, dict):
                    return any(walk(w) for w in v.values())
                if isinstance(v, list):
                    return any(walk(w) for w in v)
                return v is None or (isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) > 2**31 - 1)
            if walk(json.loads(x)):
                x = json.dumps({"e": "panic", "what": "not a number of the modelled range: " + x[:2000]}, separators=(",", ":"))
        out.append(x)
    if out != lines:
        open(path, "w").write("\n".join(out) + "\n")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = PROPS[prop]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = os.path.join(HERE, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "samples": [], "models": [], "harness": []}
        self.known = [json.loads(l) for l in open(os.path.join(HERE, "known-findings.jsonl")) if l.strip()] \
            if os.path.exists(os.path.join(HERE, "known-findings.jsonl")) else []
        self.built = {}

    def build(self, crate, profile, features=""):
        key = (crate, profile, features)
        if key not in self.built:
            self.built[key] = build(crate, profile, features)
        return self.built[key]

    # -- TLC -------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, args=(), tag="m", timeout=600, mem="2g", workers="1", files=()):
        meta = os.path.join(self.work, "meta-" + tag)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
               "-XX:TieredStopAtLevel=4", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Duser.language=en",
               "-cp", JARS, "tlc2.TLC", "-config", cfg, "-workers", workers, "-metadir", meta, "-noTE", *args, module + ".tla"]
        try:
            p = sh(cmd, cwd=os.path.join(HERE, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                   text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} ({tag})")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        open(os.path.join(self.work, f"tlc-{tag}.log"), "w").write(p.stdout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p.returncode, p.stdout, gen, dist

    def model(self, module, cfg, timeout=400, mem="4g", workers="4", args=(), quick=True):
        """an exhaustive check of a specification module (no code involved)"""
        rc, out, gen, dist = self.tlc(module, cfg, tag=cfg.replace(".cfg", ""), timeout=timeout, mem=mem, workers=workers, args=args)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError(f"model {module}/{cfg} is not clean:\n" + out[-3000:])
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append({"module": module, "config": cfg, "distinct_states": dist, "states_generated": gen, "exhaustive": "-simulate" not in args})

    def simulate(self, module, cfg, out_name, num, depth, timeout=120, workers="4"):
        """schedules generated from a specification: every line printed with the SCHED marker"""
        rc, out, gen, dist = self.tlc(module, cfg, tag="sim-" + cfg.replace(".cfg", ""), timeout=timeout, workers=workers,
                                      args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)))
        if rc != 0:
            raise ToolError(f"simulation {module}/{cfg} failed:\n" + out[-3000:])
        path = os.path.join(self.work, out_name)
        n = 0
        seen = set()
        with open(path, "w") as f:
            for line in out.splitlines():
                m = re.match(r'^<<"SCHED", (".*")>>$', line.strip())
                if m:
                    s = json.loads(m[1])
                    if s not in seen:
                        seen.add(s)
                        f.write(s + "\n")
                        n += 1
        if n == 0:
            raise ToolError(f"simulation {module}/{cfg} produced no schedule:\n" + out[-2000:])
        self.cov["models"].append({"module": module, "config": cfg, "schedules_generated": n, "depth": depth})
        return path

    # -- harness + trace validation --------------------------------------------------------------
    def harness(self, crate, profile, cmd, kv=None, features="", timeout=300, name=None):
        exe = self.build(crate, profile, features)
        out = os.path.join(self.work, name or cmd)
        args = [exe, cmd, out, str(self.seed), self.tier] + [f"{k}={v}" for k, v in (kv or {}).items()]
        t0 = time.time()
        try:
            p = sh(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=self.work,
                   preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        except subprocess.TimeoutExpired:
            path = os.path.join(self.work, f"{cmd}.hang.txt")
            open(path, "w").write("did not return within %d s: %s\n" % (timeout, " ".join(args)))
            raise Violation("the code under test does not return", path)
        # a panic of the library outside of the calls the harness guards (building an engine, an item, a bin)
        own = p.returncode == 101 and re.search(r"harness panic: panicked at " + re.escape(repo_dir()) + "/", p.stderr)
        if own or p.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL):
            path = os.path.join(self.work, f"{cmd}.crash.txt")
            open(path, "w").write("crashed with %d: %s\n%s\n" % (p.returncode, " ".join(args), p.stderr[-4000:]))
            raise Violation("the code under test crashes the process", path)
        if p.returncode != 0:
            raise ToolError(f"harness {cmd} exited {p.returncode}: {p.stderr[-3000:]}")
        st = json.load(open(os.path.join(out, "stats.json")))
        st.update({"cmd": cmd, "profile": profile, "wall_s": round(time.time() - t0, 2)})
        if features:
            st["features"] = features
        self.cov["harness"].append(st)
        return out

    def validate(self, out, module, cfg=None, timeout=500, mem="2g", env=None):
        cfg = cfg or module + ".cfg"
        files = [f for f in sorted(os.listdir(out)) if f.endswith(".ndjson") and os.path.getsize(os.path.join(out, f)) > 0]
        base = os.path.basename(out)

        def one(f):
            total(os.path.join(out, f))
            e = {"TRACE": os.path.join(out, f)}
            e.update(env or {})
            return f, self.tlc(module, cfg, env=e, tag=f"{base}-{f[:-7]}", timeout=timeout, mem=mem)

        rejected = []
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(one, files))
        for f, (rc, txt, gen, dist) in results:
            path = os.path.join(out, f)
            lines = open(path).read().splitlines()
            m = re.search(r'<<"REJECT", (\d+)', txt)
            # an event whose values lie outside of everything the specification can evaluate is no step of it either
            if not m and "The behavior up to this point is:" in txt and "Deserialize" not in txt and re.search(r"Overflow|Attempted to", txt):
                m = list(re.finditer(r"^(?:/\\ )?l = (\d+)$", txt, re.M))[-1:] 
                m = m[0] if m else None
            if m:
                rejected.append((f, int(m[1]), txt))
            elif rc != 0 or "No error has been found" not in txt:
                raise ToolError(f"TLC failed on {path}:\n" + txt[-3000:])
            self.cov["states"] += dist
            self.cov["transitions"] += gen
            self.cov["events_validated"] += (int(m[1]) - 1) if m else len(lines)
            self.cov["traces_validated_against_impl"] += max(1, sum('"e":"world"' in x or '"e":"begin"' in x for x in lines)) if not m else 0
            if lines and len(self.cov["samples"]) < 3:
                self.cov["samples"].append({"trace": base, "lines": [x[:600] for x in lines[:2]]})
        if rejected:
            f, ln, txt = rejected[0]
            path = os.path.join(out, f)
            lines = open(path).read().splitlines()
            start = max((i for i in range(ln) if '"e":"world"' in lines[i] or '"e":"begin"' in lines[i]), default=0)
            rep = os.path.join(self.work, "replay.ndjson")
            with open(rep, "w") as g:
                g.write("\n".join(lines[start:ln]) + "\n")
            raise Violation(f"{module} rejects line {ln} of {path}: {lines[ln-1][:400]}", rep)

    # -- main ------------------------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        rc, viol = 0, 0
        try:
            self.spec["run"](self)
        except Violation as v:
            rc, viol = 1, 1
            print(f"{self.prop}: {v}")
            print(f"VIOLATION property={self.prop} replay={v.replay}")
        except ToolError as e:
            print(f"{self.prop}: tool error: {e}")
            rc = 2
        for k in self.known:
            if k.get("status") == "known" and k["property"] == self.prop and rc == 0:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = self.cov
        cov["explanation"] = self.spec["what"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumes", []), "wall_s": round(time.time() - t0, 2), "violations": viol}
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)
        print(f"{self.prop} {self.tier}: rc={rc} states={cov['states']} traces={cov['traces_validated_against_impl']} "
              f"events={cov['events_validated']} {ev['wall_s']}s")
        return rc


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py <property> [quick|thorough]; properties: " + " ".join(sorted(PROPS)))
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return Check(sys.argv[1], tier).run()


if __name__ == "__main__":
    sys.exit(main())
