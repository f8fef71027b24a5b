"""Building the harness, running it, running TLC, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = VERIF + "/spec"
PART = 24 << 20
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def repo_hash():
    h = hashlib.sha256()
    for top in ("oauth-credentials", "oauth1-request", "oauth1-request-derive"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def cargo_env(target):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    for k in ("CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
        env.pop(k, None)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
    return env


def target_dir():
    """Build output keyed by the content of the sources, so that a change is always seen."""
    base = VERIF + "/target"
    t = os.path.join(base, repo_hash())
    if not os.path.isdir(t):
        os.makedirs(t)
        old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d, ignore_errors=True)
    return t


class BuildError(Exception):
    pass


def build(crate="harness", profile="dev", features=None, bin="h", timeout=800):
    t = target_dir() + "/" + crate + ("" if not features else "-" + hashlib.sha256(features.encode()).hexdigest()[:6])
    cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "--profile", profile,
           "--manifest-path", f"{VERIF}/{crate}/Cargo.toml"]
    if features is not None:
        cmd += ["--no-default-features", "--features", features]
    p = subprocess.run(cmd, env=cargo_env(t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError(p.stdout[-6000:])
    return f"{t}/{'debug' if profile == 'dev' else profile}/{bin}"


def execute(binary, family, cases, timeout=300, env=None):
    """Runs the cases; returns {id: observation}.  A case that crashes or hangs
    the process is observed as {"crash": reason} and the rest go on without it."""
    obs, todo = {}, list(cases)
    while todo:
        data = "".join(json.dumps(c) + "\n" for c in todo)
        reason = None
        try:
            p = subprocess.run([binary, family], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, env=env)
            out, rc = p.stdout, p.returncode
            if rc != 0:
                reason = f"exit {rc}: {p.stderr[-500:]}"
        except subprocess.TimeoutExpired as e:
            out, reason = (e.stdout or b"").decode("utf-8", "replace"), "hang"
        n = 0
        for line in out.split("\n"):
            if line:
                try:
                    o = json.loads(line)
                except ValueError:
                    break
                obs[o["id"]] = o
                n += 1
        if n == len(todo):
            return obs
        if reason is None:
            raise ToolError("harness stopped early without a reason")
        obs[todo[n]["id"]] = {"id": todo[n]["id"], "crash": reason}
        todo = todo[n + 1:]
        if sum(1 for o in obs.values() if "crash" in o) > 3:
            return obs
    return obs


def octets(s):
    return list(s.encode())


class Tlc:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc(module, env=None, workers=8, timeout=800, cfg=None, extra=(), heap="6g", cwd=SPEC, simulate=None):
    meta = f"{VERIF}/out/meta-{os.getpid()}-{time.time_ns()}"
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra]
    cmd.append(module + ".tla")
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.stdout, p.returncode, time.time() - t)


def tlc_verdict(res, module):
    """None if accepted; else a dict describing the rejection."""
    if res.rc == 0:
        return None
    if res.rc == 11 or "Deadlock reached" in res.out:
        kind = "the specification does not allow the next event"
    elif res.rc == 12 or re.search(r"Invariant \S+ is violated", res.out):
        kind = re.search(r"Invariant \S+ is violated", res.out).group(0)
    elif res.rc == 13 or "Action property" in res.out:
        kind = "action property violated"
    else:
        raise ToolError(f"TLC failed on {module} (exit {res.rc}):\n{res.out[-3000:]}")
    i = res.out.find("The behavior up to this point is")
    trace = res.out[i:] if i >= 0 else res.out[-3000:]
    states = re.split(r"\nState \d+:", trace)
    last = states[-1]
    # The last state is followed by statistics.
    last = re.split(r"\n\n|\n\d+ states generated", last.strip("\n"), maxsplit=1)[0]
    # (A counterexample of one state is printed without the alias.)
    c = re.search(r"\b(?:case|caseNo) = (\d+)", last) or re.search(r"\b(?:case|caseNo) = (\d+)", trace)
    at = re.search(r"\b(?:at|pos) = (\d+)", last)
    return {"kind": kind, "case": int(c.group(1)) if c else None, "at": int(at.group(1)) if at else None, "state": last[:20000]}


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = []
        self.cov = {}
        self.out = VERIF + "/out"
        os.makedirs(self.out, exist_ok=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    def violation(self, what, data):
        d = VERIF + "/replays"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{self.prop}-{len(self.violations) + 1}.json"
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, **data}, f, indent=1, ensure_ascii=True)
        self.violations.append(path)
        print(f"VIOLATION property={self.prop} replay={path}")
        print(f"  {what}")
        sys.stdout.flush()

    def validate(self, module, runs, env=None, name=None, cases=None, workers=8, timeout=800, expect_reject=False):
        """Checks recorded runs against a trace specification, as many at a time as TLC holds in memory.
        (The first violation settles the property; nothing more is validated after it.)"""
        if self.violations:
            return False
        name = name or module
        path = f"{self.out}/{self.prop}-{name}-{os.getpid()}.ndjson"
        parts, size = [[]], 0
        lines = [json.dumps(x) + "\n" for x in runs]
        for i, line in enumerate(lines):
            if size + len(line) > PART and parts[-1]:
                parts.append([])
                size = 0
            parts[-1].append(i)
            size += len(line)
        found = 0
        for keep in parts:
            while keep and not found:
                with open(path, "w") as f:
                    f.writelines(lines[i] for i in keep)
                res = tlc(module, env=dict(env or {}, TRACE=path), workers=workers, timeout=timeout)
                os.remove(path)
                v = tlc_verdict(res, module)
                if v is None:
                    self.states += res.distinct
                    self.transitions += res.generated
                    self.traces += len(keep) if not expect_reject else 0
                    break
                if v["case"] is None:
                    raise ToolError("rejection without a case:\n" + res.out[-3000:])
                if expect_reject:
                    return True
                i = keep[v["case"] - 1]
                found += 1
                self.violation(f"{module}: {v['kind']} (run {i}, event {v['at']})",
                               {"module": module, "run": runs[i], "case": cases[i] if cases else None, "at": v["at"],
                                "tlc": v["state"]})
                keep.remove(i)
        return False

    def model(self, module, cfg=None, env=None, workers=8, timeout=800, name=None, extra=()):
        """Checks a model exhaustively; its failure is an error of the specification, not of the code."""
        res = tlc(module, env=env, workers=workers, timeout=timeout, cfg=cfg, extra=extra)
        if res.rc != 0:
            raise ToolError(f"the model {module} itself fails:\n{res.out[-3000:]}")
        self.states += res.distinct
        self.transitions += res.generated
        self.cov.setdefault("models", []).append({"model": name or module, "distinct_states": res.distinct, "generated": res.generated,
                                                  "wall_s": round(res.wall, 1)})
        return res

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:5], "exhaustive": False}
        cov.update(self.cov)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations), "notes": self.notes}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0
