"""Shared machinery of the checks: build, TLC, driver and evidence."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
WORK = os.path.join(VERIF, ".work")
JARS = ":".join(
    os.path.join("/opt/veriftools/tla", j)
    for j in ("tla2tools.jar", "CommunityModules-deps.jar")
)
WORKERS = str(os.cpu_count() or 4)


class ToolError(Exception):
    """The check could not give an answer."""


def cargo_env(target):
    env = dict(os.environ)
    env.update(
        HOME="/root",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        RUST_BACKTRACE="0",
        RUSTFLAGS="-Awarnings",
        CARGO_TARGET_DIR=target,
        PYO3_PYTHON="/opt/vp/venv/bin/python",
        PYTHONDONTWRITEBYTECODE="1",
    )
    return env


def run_build(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:])
        raise ToolError(f"building {what} failed")


def build_driver():
    """Builds the driver against the working tree of /repo.

    The sources are copied so nothing committed is ever rewritten.
    """
    src = os.path.join(BUILD, "driver-src")
    shutil.rmtree(src, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    target = os.path.join(BUILD, "driver")
    run_build(["cargo", "build", "--offline", "-q"], src, cargo_env(target), "the driver")
    return os.path.join(target, "debug", "vh")


def build_python():
    """Builds the Python extension of /repo, returns the directory of it."""
    target = os.path.join(BUILD, "python")
    env = cargo_env(target)
    lock = os.path.join(REPO, "Cargo.lock")
    had_lock = os.path.exists(lock)
    run_build(["cargo", "build", "--offline", "-q", "-p", "py-rspolib"], REPO, env,
              "the Python extension")
    if not had_lock and os.path.exists(lock):
        os.remove(lock)
    out = os.path.join(BUILD, "pymod")
    os.makedirs(out, exist_ok=True)
    shutil.copy(os.path.join(target, "debug", "librspolib.so"), os.path.join(out, "rspolib.so"))
    return out


class Check:
    """A run of the check of a property."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            raise ToolError(f"unknown tier {self.tier}")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.started = time.time()
        self.work = os.path.join(WORK, f"{prop}-{self.tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "scratch"))
        self.replays = os.path.join(WORK, "replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.replays)
        self.violations = []
        self.findings = []
        self.cov = {
            "states": 0,
            "transitions": 0,
            "traces_validated_against_impl": 0,
            "samples": [],
            "runs": [],
        }
        self.assumptions = []
        self.vh = None
        self.pymod = None
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.started:6.1f}s]", *a, flush=True)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, name, constants=None, invariants=(), env=None, simulate=None,
            view=None, spec="Spec", timeout=700, cases=None, constraint=None, heap="6g",
            properties=()):
        """Runs TLC, returns the path of its output and its numbers."""
        cfg = self.path(f"{name}.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n")
            if constants:
                f.write("CONSTANTS\n")
                for k, v in constants.items():
                    f.write(f"  {k} {v}\n" if str(v).startswith("<-") else f"  {k} = {v}\n")
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for i in properties:
                f.write(f"PROPERTY {i}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if view:
                f.write(f"VIEW {view}\n")
        out = self.path(f"{name}.out")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", f"-Xmx{heap}",
               f"-Djava.io.tmpdir={self.work}", "-cp", JARS, "tlc2.TLC",
               "-workers", WORKERS, "-noGenerateSpecTE", "-nowarning",
               "-metadir", self.path(f"{name}.states"), "-config", cfg]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]),
                    "-seed", str(self.seed)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if cases:
            e["CASES"] = cases
        e.update(env or {})
        t = time.time()
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC took too long ({name})")
        stats = {"name": name, "module": module, "wall_s": round(time.time() - t, 1),
                 "states": 0, "transitions": 0}
        violated = None
        errors = []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith('"{') or line.startswith("<<"):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    stats["states"] = int(m.group(2))
                    stats["generated"] = int(m.group(1))
                m = re.match(r"Finished computing initial states: (\d+)", line)
                if m:
                    stats["initial"] = int(m.group(1))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    stats["states"] = stats["generated"] = int(m.group(1))
                m = re.match(r"Error: Invariant (\w+) is violated", line)
                if m:
                    violated = m.group(1)
                elif line.startswith("Error:"):
                    errors.append(line.strip())
        stats["transitions"] = max(0, stats.pop("generated", 0) - stats.pop("initial", 0))
        if violated is None and (p.returncode != 0 or errors):
            tail = subprocess.run(["tail", "-c", "3000", out], stdout=subprocess.PIPE,
                                  text=True, errors="replace").stdout
            sys.stderr.write(tail)
            raise ToolError(f"TLC failed ({name}): {errors[:1]}")
        stats["violated"] = violated
        shutil.rmtree(self.path(f"{name}.states"), ignore_errors=True)
        self.cov["states"] += stats["states"]
        self.cov["transitions"] += stats["transitions"]
        self.cov["runs"].append({k: v for k, v in stats.items() if k != "violated"})
        self.log(f"TLC {name}: {stats['states']} states, {stats['transitions']} transitions,"
                 f" {stats['wall_s']} s")
        return out, stats

    def model(self, module, name, **kw):
        """Exploration of the specification itself: its properties must hold."""
        out, stats = self.tlc(module, name, **kw)
        if stats["violated"]:
            raise ToolError(f"the specification breaks {stats['violated']} ({name}), see {out}")
        return out

    def validate(self, module, name, cases, env=None, constants=None, corrupt=None, timeout=700,
                 invariant="NoDifference", chunk=12 << 20):
        """Recorded behaviours must be behaviours of the specification.

        `corrupt` changes a recorded case: changed ones are added, and must
        be refused, so a specification that accepts anything is noticed.
        Many cases are given to TLC in several runs.
        """
        parts, size = [[]], 0
        with open(cases) as f:
            for line in f:
                if size > chunk:
                    parts.append([])
                    size = 0
                parts[-1].append(line)
                size += len(line)
        held = True
        for i, recs in enumerate(parts):
            label = name if len(parts) == 1 else f"{name}-{i + 1}"
            held = self.validate_part(module, label, recs, env, constants, corrupt, timeout,
                                      invariant, i == 0) and held
            if len(self.violations) >= 5:
                break
        return held

    def validate_part(self, module, name, recs, env, constants, corrupt, timeout, invariant,
                      first):
        total = len(recs)
        planted = 0
        if corrupt and total:
            want = 8
            step = max(1, total // (want * 6))
            for i in range(0, total, step):
                if planted >= want:
                    break
                c = corrupt(json.loads(recs[i]), i)
                if c is not None:
                    c["x"] = 1
                    recs.append(json.dumps(c) + "\n")
                    planted += 1
            if not planted and first:
                raise ToolError(f"no recorded case could be corrupted ({name})")
        path = self.path(f"{name}.cases")
        with open(path, "w") as f:
            f.writelines(recs)
        e = dict(env or {})
        e.setdefault("PROP", self.prop)
        out, stats = self.tlc(module, name, cases=path, env=e, constants=constants,
                              invariants=[invariant], timeout=timeout)
        ok, bad, tags = set(), {}, {}
        with open(out, errors="replace") as f:
            for line in f:
                while line.startswith("<<") and not line.endswith(">>\n"):
                    more = f.readline()
                    if not more:
                        break
                    line = line.rstrip() + " " + more.lstrip()
                line = re.sub(r"^<< +", "<<", re.sub(r" +>>$", ">>", line))
                m = re.match(r'<<"(OK|BAD)", (\d+), "(.*?)"(?:, "(.*)")?>>', line)
                if m:
                    k = int(m.group(2))
                    if m.group(4) is not None:
                        tags[m.group(4)] = tags.get(m.group(4), 0) + 1
                    if m.group(1) == "OK":
                        ok.add(k)
                    else:
                        bad[k] = m.group(3)
        if tags:
            self.cov["runs"][-1]["outcomes"] = tags
        real = {k: w for k, w in bad.items() if k <= total}
        for k, why in sorted(real.items())[:5]:
            self.violation(f"recorded behaviour refused: {why}", json.loads(recs[k - 1]), name)
        if not real:
            if stats["violated"]:
                raise ToolError(f"{stats['violated']} broken without a case ({name})")
            missed = [k for k in range(total + 1, total + planted + 1) if k not in bad]
            if missed:
                raise ToolError(f"corrupted cases accepted ({name}): {missed}, see {path}")
            if len(ok) != total:
                raise ToolError(f"{len(ok)} of {total} cases judged ({name})")
            self.cov["traces_validated_against_impl"] += total
            self.cov["runs"][-1]["recorded"] = total
            self.cov["runs"][-1]["corrupted_and_refused"] = planted
            if total and len(self.cov["samples"]) < 4:
                self.sample(json.loads(recs[(self.seed * 7919) % total]))
        return not real

    # --------------------------------------------------------------- driver
    def driver(self, args, name, timeout=600, mem_gb=6):
        """Runs the driver. Returns its parsed output lines.

        A crash or a hang of the code under test is a violation.
        """
        if self.vh is None:
            self.vh = build_driver()
            self.log("driver built")
        current = self.path(f"{name}.current")
        return self.process([self.vh] + args + ["--current", current], name, current, timeout,
                            mem_gb)

    def process(self, cmd, name, current, timeout=600, mem_gb=6, env=None):
        out = self.path(f"{name}.log")
        err = self.path(f"{name}.err")

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        with open(out, "w") as fo, open(err, "w") as fe:
            p = subprocess.Popen(cmd, cwd=self.path("scratch"), stdout=fo, stderr=fe,
                                 preexec_fn=limits, env=env, start_new_session=True)
            try:
                code = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise ToolError(f"the driver took too long ({name})")
        lines = []
        with open(out, errors="replace") as f:
            for line in f:
                if line.startswith("{"):
                    lines.append(json.loads(line))
        if code == 42 or code < 0 or code in (134, 137, 139):
            case = None
            if os.path.exists(current):
                with open(current, errors="replace") as f:
                    first = f.readline()
                try:
                    case = json.loads(first)
                except ValueError:
                    case = {"raw": first[:2000]}
            if case is None:
                raise ToolError(f"the driver died ({name}, {code})")
            why = "takes too long" if code == 42 else f"killed the process ({code})"
            self.violation(why, case, name)
            return None
        if code not in (0, 1):
            with open(err, errors="replace") as f:
                sys.stderr.write(f.read()[-3000:])
            raise ToolError(f"the driver failed ({name}, {code})")
        return lines

    def replay(self, args, name, timeout=600, mem_gb=6):
        """Runs the driver on behaviours of the specification."""
        return self.tally(self.driver(args, name, timeout, mem_gb), name)

    def python(self, args, name, timeout=600, mem_gb=6):
        """Runs the driver of the Python module, as `driver` does."""
        if self.pymod is None:
            self.pymod = build_python()
            self.log("Python module built")
        current = self.path(f"{name}.current")
        env = dict(os.environ, PYTHONPATH=self.pymod, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONUTF8="1", RUST_BACKTRACE="0")
        cmd = ["/opt/vp/venv/bin/python", os.path.join(VERIF, "harness", "py", "driver.py")] + args
        return self.process(cmd + ["--scratch", self.path("scratch"), "--current", current], name,
                            current, timeout, mem_gb, env)

    def replay_python(self, what, src, name, timeout=600):
        """The cases are shared by as many processes as cores."""
        self.python(["nothing"], "nothing")
        n = os.cpu_count() or 4
        with ThreadPoolExecutor(n) as pool:
            outs = list(pool.map(lambda i: self.python([what, "--in", src, "--part", f"{i}/{n}"],
                                                       f"{name}-{i}", timeout), range(n)))
        if None in outs:
            return False
        total = {"judged": 0, "bad": 0}
        for lines in outs:
            for line in lines:
                if "judged" in line:
                    total = {k: total[k] + line[k] for k in total}
        bads = [x for lines in outs for x in lines if "judged" not in x]
        if sum("judged" in x for lines in outs for x in lines) != n:
            raise ToolError(f"no summary of the driver ({name})")
        return self.tally(bads + [total], name)

    def tally(self, lines, name):
        if lines is None:
            return False
        judged = None
        bads = []
        for line in lines:
            if "judged" in line:
                judged = line
            elif "bad" in line:
                bads.append(line)
        if judged is None:
            raise ToolError(f"no summary of the driver ({name})")
        for b in bads[:5]:
            self.violation(b["bad"], b, name)
        if judged.get("bad") and not bads:
            raise ToolError(f"violations without case ({name})")
        if judged["judged"] == 0:
            raise ToolError(f"nothing was replayed ({name})")
        self.cov["traces_validated_against_impl"] += judged["judged"]
        self.cov["runs"].append({"name": name, **judged})
        self.log(f"replay {name}: {judged['judged']} cases, {judged.get('bad', 0)} bad")
        return not bads

    # -------------------------------------------------------------- results
    def sample(self, case):
        text = json.dumps(case)
        self.cov["samples"].append(readable(case) if len(text) < 20000 else text[:2000])

    def violation(self, why, case, name):
        n = len(self.violations) + 1
        path = os.path.join(self.replays, f"{name}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "why": why, "from": name, "tier": self.tier,
                       "seed": self.seed, "case": case, "readable": readable(case)}, f, indent=1)
            f.write("\n")
        self.violations.append((why, path))

    def known_finding(self, what):
        self.findings.append(what)

    def finish(self, level="model_checking"):
        self.cov["runs"] = self.cov["runs"][:60]
        if not self.cov["samples"]:
            self.cov["samples"] = ["none recorded in this run"]
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": self.cov,
            "wall_s": round(time.time() - self.started, 2),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")
        for what in self.findings:
            print(f"KNOWN-FINDING: property={self.prop} {what}", flush=True)
        if self.violations:
            for why, path in self.violations[:5]:
                print(f"{self.prop}: {why}", flush=True)
                print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        self.log("held")
        # what was recorded is not needed any more
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def load_known(prop):
    """Lines of the known findings of a property: {key: what}."""
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    known[m.group(2)] = m.group(3)
    return known


def is_text(v):
    return isinstance(v, list) and v and all(
        isinstance(c, int) and not isinstance(c, bool) for c in v)


def readable(v):
    """Values with texts written as strings."""
    if is_text(v):
        try:
            return "".join(chr(c) for c in v)
        except (ValueError, OverflowError):
            return v
    if isinstance(v, list):
        return [readable(x) for x in v]
    if isinstance(v, dict):
        return {k: readable(x) for k, x in v.items()}
    return v
