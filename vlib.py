"""Shared machinery of the checks: building the harness from /repo's tree, running TLC, replaying,
evidence, known findings.  Exit codes: 0 held, 1 VIOLATION, 2 tool error."""
import json, os, re, subprocess, sys, time, hashlib, shutil, threading
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SPEC = f"{V}/spec"
WORK = f"{V}/work"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLASSES = f"{V}/target/tlaclasses"


class Crashed(Exception):
    pass


class ToolError(Exception):
    pass


def sh_env():
    out = subprocess.run(["bash", "-c", f". {V}/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
    return dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)


ENV = sh_env()


def build_java():
    os.makedirs(CLASSES, exist_ok=True)
    src = [f"{SPEC}/java/{f}" for f in sorted(os.listdir(f"{SPEC}/java")) if f.endswith(".java")]
    newest = max(os.path.getmtime(s) for s in src)
    done = [f"{CLASSES}/{os.path.basename(s)[:-5]}.class" for s in src]
    if all(os.path.exists(d) and os.path.getmtime(d) >= newest for d in done):
        return
    r = subprocess.run(["javac", "-cp", JARS.split(":")[0], "-d", CLASSES, *src], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("javac: " + r.stderr[-2000:])


def build_harness(bins):
    lock = f"{V}/harness/Cargo.lock"
    args = ["cargo", "build", "--offline", "--quiet"]
    for b in bins:
        args += ["--bin", b]
    r = subprocess.run(args, cwd=f"{V}/harness", env=ENV, capture_output=True, text=True)
    if r.returncode:
        raise ToolError("harness build failed:\n" + r.stderr[-6000:])


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known_hits = [], [], []
        self.detail = {}
        self.assumptions = []
        self.dir = f"{WORK}/{pid}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()
        self.known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "open"]

    @property
    def quick(self):
        return self.tier == "quick"

    def path(self, name):
        return f"{self.dir}/{name}"

    # -- TLC -------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, env=None, workers=8, invariants=(), spec="Spec",
            extra_cfg=(), args=(), timeout=840, heap="6g", name=None, expect_ok=True, props=(), defs=""):
        """Run TLC on spec/<module>.tla with a generated configuration.  Returns (ok, emitted, output).
        Lines printed as JSON strings by the specification are collected in `emitted`."""
        name = name or module
        mdir = self.path(f"tlc-{name}")
        os.makedirs(mdir, exist_ok=True)
        cfgp = f"{mdir}/{name}.cfg"
        with open(cfgp, "w") as f:
            if cfg is not None:
                f.write(cfg)
            else:
                f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
                for k, v in (consts or {}).items():
                    f.write(f"CONSTANT {k} <- c_{k}\n")
                for i in invariants:
                    f.write(f"INVARIANT {i}\n")
                for p in props:
                    f.write(f"PROPERTY {p}\n")
                for l in extra_cfg:
                    f.write(l + "\n")
        with open(f"{mdir}/MC{name}.tla", "w") as f:
            f.write(f"---- MODULE MC{name} ----\nEXTENDS {module}\n")
            for k, v in (consts or {}).items():
                f.write(f"c_{k} == {v}\n")
            f.write(defs + "\n====\n")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}", "-cp", f"{CLASSES}:{JARS}",
               "tlc2.TLC", "-workers", str(workers), "-metadir", f"{mdir}/states", "-noGenerateSpecTE",
               "-config", cfgp, *args, f"{mdir}/MC{name}.tla"]
        try:
            r = subprocess.run(cmd, cwd=mdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timeout on {name}")
        out = r.stdout
        with open(f"{mdir}/out.txt", "w") as f:
            f.write(out)
        shutil.rmtree(f"{mdir}/states", ignore_errors=True)
        emitted = []
        for l in out.splitlines():
            if l.startswith('"{') and l.endswith('}"'):
                try:
                    emitted.append(json.loads(json.loads(l)))
                except ValueError:
                    raise ToolError(f"bad emitted line from {name}: {l[:200]}")
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
            pass
        sim = re.search(r"The number of states generated: ([\d,]+)", out) if "-simulate" in args else None
        if sim:
            n = int(sim.group(1).replace(",", ""))
            with self.lock:
                self.transitions += n
                self.detail.setdefault("tlc", {})[name] = {"simulated_states": n}
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m.groups())
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.detail.setdefault("tlc", {})[name] = {"distinct": dist, "generated": gen}
        ok = r.returncode == 0 and ("No error has been found" in out or sim)
        if not ok:
            inv = re.search(r"(Invariant \w+ is violated|Temporal properties were violated|"
                            r"[Pp]ostcondition|is violated|The property .* is violated|Assertion)", out)
            if expect_ok or not inv:
                bad = out[-3500:]
                raise ToolError(f"TLC run {name} failed (rc {r.returncode}):\n{bad}")
        return ok, emitted, out

    # -- harness ---------------------------------------------------------------------------------
    def harness(self, bin_, args=(), stdin=None, timeout=800, env=None):
        """Run a harness command.  It prints one JSON object per line; lines with a "violation" key are
        violations, the last line with "summary" carries the counts."""
        e = dict(ENV)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["VERIF_SEED"] = str(self.seed)
        if self.quick:
            timeout = min(timeout, 500)
        try:
            r = subprocess.run([f"{V}/target/debug/{bin_}", *map(str, args)], env=e, input=stdin,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            if not self.quick:
                raise ToolError(f"harness timeout: {bin_} {args}")
            # every quick replay takes well under a tenth of this on the unchanged tree
            self.violation(f"the code under test did not finish {bin_} within {timeout} s", {"bin": bin_, "args": list(map(str, args))})
            raise Crashed(bin_)
        tag = hashlib.sha1((bin_ + " ".join(map(str, args))).encode()).hexdigest()[:8]
        with open(self.path(f"{bin_}-{tag}.err"), "w") as f:
            f.write(r.stderr)
        summary, viols = None, []
        for l in r.stdout.splitlines():
            if not l.startswith("{"):
                continue
            d = json.loads(l)
            if "violation" in d:
                viols.append(d)
            elif "summary" in d:
                summary = d["summary"]
        if summary is None and r.returncode in (101, -6, -11, -4, -8, 134, 139, 132, 136):
            # A panic outside a guarded call, an abort, a stack overflow or a fault: the code under test did it.
            for v in viols:
                self.violation(v["violation"], {"bin": bin_, "args": list(map(str, args)), **v})
            self.violation(f"the code under test crashed {bin_} (exit {r.returncode}): {r.stderr[-600:]}",
                           {"bin": bin_, "args": list(map(str, args)), "stderr": r.stderr[-3000:]})
            raise Crashed(bin_)
        if summary is None:
            raise ToolError(f"harness {bin_} {args} gave no summary (rc {r.returncode}): {r.stderr[-3000:]}")
        for v in viols:
            self.violation(v["violation"], {"bin": bin_, "args": list(map(str, args)), **v})
        return summary

    def violation(self, what, data):
        for k in self.known:
            if k["match"] in what:
                if k not in self.known_hits:
                    self.known_hits.append(k)
                return
        self.violations.append((what, data))

    def add(self, key, n):
        self.detail[key] = self.detail.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 3000 else t[:3000])

    # -- result ----------------------------------------------------------------------------------
    def finish(self, level, level_assumptions=()):
        os.makedirs(f"{V}/evidence", exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "samples": self.samples or ["none"], "detail": self.detail},
            "assumptions": list(level_assumptions) + self.assumptions,
            "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        with open(f"{V}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            os.makedirs(f"{WORK}/replay", exist_ok=True)
            rp = f"{WORK}/replay/{self.pid}-{int(time.time())}.json"
            with open(rp, "w") as f:
                json.dump([{"what": w, "case": d} for w, d in self.violations[:50]], f, indent=1)
            for w, _ in self.violations[:5]:
                print(f"violated: {w[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        print(f"OK property={self.pid} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} wall={ev['wall_s']}s")
        return 0


def load_known():
    p = f"{V}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def parallel(*thunks):
    with ThreadPoolExecutor(max_workers=len(thunks)) as ex:
        return [f.result() for f in [ex.submit(t) for t in thunks]]


def scaled(cases, tops, many=False):
    """Accepted honest behaviours of the specification, each once, to be repeated with longer columns (`extra` more variables)."""
    seen, out = set(), []
    for c in cases:
        if c["dev"]["k"] != "none" or c["verdict"] != "accept" or not c["claims"] or not c.get("vanishes", True): continue
        if any(all(not m["e"] for m in p) for k in c["claims"] for p in k.get("comps", [])): continue # constant compositions: see known findings
        key = json.dumps([c.get("order"), c.get("proto"), c.get("skip")] + [[k.get(f) for f in ("n", "kinds", "comps", "w", "g", "dyn", "len", "kind")] for k in c["claims"]])
        if key in seen: continue
        seen.add(key)
        t = tops if many else [tops[len(seen) % len(tops)]]
        m = max(k["n"] for k in c["claims"])
        out += [c | dict(extra=x - m) for x in t if x > m]
    return out
def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
