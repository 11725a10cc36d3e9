"""Common machinery of the checks: build drivers from /repo, run them on
scripts, validate the recorded traces with TLC, write evidence."""
import concurrent.futures as cf
import glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not give an answer."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


def play_commands(x):
    """amounts are written @T:days:seconds:ticks"""
    def ticks(m):
        T, n, s, u = (int(v) for v in m.groups())
        return str((n * 86400 + s) * T + u)
    return re.sub(r"@(\d+):(-?\d+):(-?\d+):(-?\d+)", ticks, x).split(";")


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.t0 = time.time()
        self.states = self.transitions = self.chunks = self.events = 0
        self.kinds = {}
        self.models = []
        self.samples = []
        self.notes = {}
        self._bins = {}
        self._n = 0
        self._bg = []                  # lemmas being checked meanwhile
        self._procs = []
        self._pool = cf.ThreadPoolExecutor(q_workers(self.thorough))

    def close(self):
        self._pool.shutdown(wait=False, cancel_futures=True)
        for p in self._procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- building ------------------------------------------------------
    def build(self, driver, cxx="g++", flags=("-O1",), tag="plain", second=False, lib=None):
        """the driver linked with the library, both from the current tree;
        lib = (compiler, flags): the library is built in another way than the
        program (with -shared: as a shared object)"""
        key = (driver, tag)
        if key in self._bins:
            return self._bins[key]
        d = os.path.join(self.tmp, f"build-{tag}")
        os.makedirs(d, exist_ok=True)

        def base(cxx, flags):
            return [cxx, *([] if any(f.startswith("-std=") for f in flags) else ["-std=c++17"]), "-w", *[f for f in flags if f != "-shared"],
                    "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "harness"), "-c"]
        lcxx, lflags = lib or (cxx, flags)
        jobs, objs, libobjs = [], [], []
        for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_") + ".o")
            libobjs.append(o)
            if (tag, s) not in self._bins:
                self._bins[(tag, s)] = o
                jobs.append(base(lcxx, lflags) + [s, "-o", o])
        for s in [driver] + (["second_unit"] if second else []):
            o = os.path.join(d, s + ".o")
            objs.append(o)
            if (tag, s) not in self._bins:
                self._bins[(tag, s)] = o
                jobs.append(base(cxx, flags) + [os.path.join(VERIF, "harness", s + ".cpp"), "-o", o])
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for r in ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs):
                if r.returncode:
                    raise CheckError("compilation failed:\n" + r.stderr[-3000:])
        exe = os.path.join(d, driver)

        def run(cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise CheckError("linking failed:\n" + r.stderr[-3000:])
        if "-shared" in lflags:
            so = os.path.join(d, f"lib{driver}.so")
            run([lcxx, "-shared", *libobjs, "-o", so])
            libobjs = [so, f"-Wl,-rpath,{d}"]
        run([cxx, *[f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")], *objs, *libobjs, "-o", exe])
        self._bins[key] = exe
        return exe

    # ---- locales ---------------------------------------------------------
    def locales(self):
        """The locales scripts may set, compiled from the system's sources;
        returns the LOCPATH.  One the system cannot make is not used: the
        driver then goes on in the locale it is in, and says so."""
        d = os.path.join(self.tmp, "locales")
        if not os.path.isdir(d):
            os.makedirs(d)
            for name, cs in LOCALES.items():
                try:
                    subprocess.run(["localedef", "-i", name.split(".")[0], "-f", cs, os.path.join(d, name)], capture_output=True, timeout=120)
                except (OSError, subprocess.TimeoutExpired):
                    pass
            self.notes["locales"] = sorted(os.listdir(d)) + ["facet"]
        return d

    # ---- running drivers -----------------------------------------------
    def drive(self, exe, scripts, name="t", env=None, parts=NPROC, timeout=700):
        """scripts: list of chunk scripts, each starting with 'chunk ID'.
        Returns the trace files written (one per part)."""
        parts = max(1, min(parts, len(scripts)))
        self._n += 1
        e = dict(os.environ)
        e.update(env or {})
        if any("\nlocale " in s for s in scripts):
            e["LOCPATH"] = self.locales()
        files = []

        def one(k):
            mine = scripts[k::parts]
            sp = os.path.join(self.tmp, f"{name}-{self._n}-{k}.script")
            tp = os.path.join(self.tmp, f"{name}-{self._n}-{k}.ndjson")
            with open(sp, "w") as f:
                f.write("\n".join(mine) + "\n")
            with open(sp) as i, open(tp, "w") as o:
                try:
                    r = subprocess.run([exe], stdin=i, stdout=o, stderr=subprocess.PIPE,
                                       env=e, timeout=timeout)
                except subprocess.TimeoutExpired:
                    raise CheckError(f"driver {exe} timed out")
            if r.returncode:
                raise CheckError(f"driver {exe} failed ({r.returncode}): "
                                 + r.stderr.decode(errors="replace")[-2000:])
            return tp
        with cf.ThreadPoolExecutor(parts) as ex:
            files = list(ex.map(one, range(parts)))
        return files

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="1500m", timeout=800, extra=()):
        self._n += 1
        md = os.path.join(self.tmp, f"md-{self._n}")
        e = dict(os.environ)
        e.update(env or {})
        e["LC_ALL"] = "C.UTF-8"
        e.pop("JAVA_TOOL_OPTIONS", None)
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", gc, "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg, *extra, module]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        res = {"out": out, "ok": "Model checking completed. No error has been found." in out,
               "deadlock": "Error: Deadlock reached." in out, "generated": 0, "distinct": 0}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.search(r"Invariant (\w+) is violated", out)
        if m:
            res["invariant"] = m.group(1)
        cs = re.findall(r"^/\\ c = (\d+)$", out, re.M)
        ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if cs and ls:
            res["c"], res["l"] = int(cs[-1]), int(ls[-1])
        return res

    def cfg(self, base, invariants=None, properties=None, **consts):
        """A variant of a committed configuration: other invariants or constants."""
        with open(os.path.join(SPEC, base)) as f:
            s = f.read()
        if invariants is not None:
            s = re.sub(r"^(INVARIANTS?|PROPERTIES)\b[^\n]*(\n[ \t]+[^\n]*)*\n?", "", s, flags=re.M)
            s += "\nINVARIANTS " + " ".join(invariants) + "\n" if invariants else ""
            s += "\nPROPERTIES " + " ".join(properties) + "\n" if properties else ""
        for k, v in consts.items():
            s, n = re.subn(r"^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), s, flags=re.M)
            if n != 1:
                raise CheckError(f"no constant {k} in {base}")
        self._n += 1
        p = os.path.join(self.tmp, f"cfg{self._n}-{base}")
        with open(p, "w") as f:
            f.write(s)
        return p

    def refuted(self, module, cfg, what, timeout=800):
        """A specification carrying a known defect: its properties must fail."""
        r = self.tlc(module + ".tla", cfg, workers=NPROC, heap="6g", timeout=timeout)
        if r["ok"] or "invariant" not in r:
            raise CheckError(f"{module}: the properties do not refute {what}:\n" + r["out"][-2000:])
        self.notes.setdefault("refuted_defects", []).append({"what": what, "by": r["invariant"]})

    def model(self, module, cfg, what, workers=NPROC, timeout=800, heap="6g", env=None):
        """Exhaustive check of the design specification itself."""
        t = time.time()
        r = self.tlc(module + ".tla", cfg, workers=workers, heap=heap, timeout=timeout, env=env)
        if not r["ok"]:
            raise CheckError(f"the specification {module}/{cfg} does not satisfy its own properties:\n"
                             + r["out"][-4000:])
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"model": module, "config": os.path.basename(cfg), "what": what, "distinct_states": r["distinct"],
                            "states_generated": r["generated"], "seconds": round(time.time() - t, 1)})

    # ---- behaviours of the specification, as scripts ----------------------
    def plays(self, module, mix, num, parts=NPROC):
        """TLC, in simulation mode, chooses `num` behaviours of a Play module;
        returns them as lists of commands for a driver."""
        parts = max(1, min(parts, num))
        seeds = [self.rng.randrange(1, 2 ** 30) for _ in range(parts)]
        cfg = self.cfg(module + ".cfg", Mix=f'"{mix}"')
        t = time.time()

        def one(k):
            p = os.path.join(self.tmp, f"plays-{mix}-{self._n}-{k}.json")
            n = num // parts + (k < num % parts)
            r = self.tlc(module + ".tla", cfg, env={"PLAYS": p}, extra=("-simulate", f"num={n}", "-seed", str(seeds[k]), "-depth", "1000"))
            m = re.search(r"The number of states generated: (\d+)", r["out"])
            if "Error" in r["out"] or not m:
                raise CheckError(f"{module}: no plays of {mix}:\n" + r["out"][-3000:])
            with open(p) as f:
                got = [json.loads(x) for x in f]
            os.unlink(p)
            if len(got) < 0.9 * n:
                raise CheckError(f"{module}: {len(got)} plays of {mix} instead of {n}")
            return int(m.group(1)), got
        with cf.ThreadPoolExecutor(parts) as ex:
            rs = list(ex.map(one, range(parts)))
        self.notes.setdefault("plays_chosen_by_tlc", []).append(
            {"module": module, "mix": mix, "plays": sum(len(g) for _, g in rs), "steps": sum(n for n, _ in rs), "seconds": round(time.time() - t, 1)})
        return [[y for x in g["play"] for y in play_commands(x)] for _, got in rs for g in got]

    # ---- Apalache --------------------------------------------------------
    def lemmas(self, module, invs, what, **consts):
        """Statements about all integers, checked symbolically by Apalache
        while the rest of the check runs; `settle` waits for them."""
        self._bg.append(self._pool.submit(self._lemmas, module, list(invs), what, consts))

    def _lemmas(self, module, invs, what, consts):
        t = time.time()
        d = tempfile.mkdtemp(prefix="apalache-", dir=self.tmp)
        cmd = ["apalache-mc", "check", "--length=0", "--out-dir=" + d, "--inv=" + ",".join(invs)]
        if consts:
            with open(os.path.join(SPEC, module + ".cfg")) as f:
                s = f.read()
            for k, v in consts.items():
                s, n = re.subn(r"^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + str(v), s, flags=re.M)
                if n != 1:
                    raise CheckError(f"no constant {k} in {module}.cfg")
            p = os.path.join(d, module + ".cfg")
            with open(p, "w") as f:
                f.write(s)
            cmd.append("--config=" + p)
        e = dict(os.environ, JVM_ARGS="-Xmx2g", TMPDIR=d)
        e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.Popen(cmd + [module + ".tla"], cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self._procs.append(p)
        try:
            out, _ = p.communicate(timeout=3000 if self.thorough else 600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise CheckError(f"Apalache timed out on {module} {invs}")
        ok = "The outcome is: NoError" in out and re.search(r"State 0: Checking [1-9]\d* state invariants", out)
        if p.returncode or not ok:
            raise CheckError(f"{module}: not proved of {consts}: {invs}\n" + out[-3000:])
        return {"module": module, "lemmas": invs, "what": what, "constants": consts, "range": "all integers",
                "seconds": round(time.time() - t, 1)}

    def settle(self):
        for f in self._bg:
            self.notes.setdefault("lemmas_proved_by_apalache", []).append(f.result())
        self._bg = []

    def _count(self, f):
        n = c = 0
        with open(f) as fh:
            for line in fh:
                try:
                    o = json.loads(line)
                except ValueError:
                    raise CheckError("unreadable trace line: " + line[:200])
                c += 1
                n += len(o["ev"])
                for ev in o["ev"]:
                    self.kinds[ev["a"]] = self.kinds.get(ev["a"], 0) + 1
                if o["ev"] and len(self.samples) < 6 and c % 7 == 1:
                    self.samples.append({"chunk": o["id"], "event": self._clip(o["ev"][len(o["ev"]) // 2])})
        return c, n

    @staticmethod
    def _clip(ev):
        s = json.dumps(ev)
        return ev if len(s) < 600 else s[:600] + "..."

    def validate(self, module, cfg, files, heap="2g"):
        """Returns None or (file, chunk index, event index, chunk object)."""
        def one(f):
            if os.path.getsize(f) == 0:
                return None
            r = self.tlc(module + ".tla", cfg, env={"TRACE": f}, heap=heap)
            return r
        with cf.ThreadPoolExecutor(NPROC) as ex:
            rs = list(ex.map(one, files))
        bad = None
        for f, r in zip(files, rs):
            if r is None:
                continue
            if r["ok"]:
                c, n = self._count(f)
                if r["distinct"] < n + c:
                    raise CheckError(f"{module}: TLC saw {r['distinct']} states for {n} events in {c} chunks")
                self.chunks += c
                self.events += n
                self.states += r["distinct"]
                self.transitions += r["generated"]
            elif (r["deadlock"] or "invariant" in r) and "c" in r:
                with open(f) as fh:
                    line = fh.read().splitlines()[r["c"] - 1]
                obj = json.loads(line)
                i = r["l"] - (1 if r["deadlock"] else 2)
                bad = bad or (f, obj, max(0, min(i, len(obj["ev"]) - 1)))
            else:
                raise CheckError(f"TLC failed on {module}:\n" + r["out"][-4000:])
        return bad

    def conform(self, driver, scripts, module, cfg, name="t", env=None, exe=None, parts=NPROC):
        """Drive the code with the scripts and check the traces against the
        specification; raises Violation if a rejection is confirmed."""
        other = None
        if exe is None:
            with cf.ThreadPoolExecutor(2) as ex:
                o = ex.submit(self.other_build, driver)
                exe, other = self.build(driver), o.result()
        batch, lines = [], 0
        for s in scripts:
            batch.append(s)
            lines += s.count("\n")
            if lines > 120000:
                self._conform(driver, batch, module, cfg, name, env, exe, parts, other)
                batch, lines = [], 0
        if batch:
            self._conform(driver, batch, module, cfg, name, env, exe, parts, other)

    def other_build(self, driver):
        """The same program where anything the language leaves undefined ends
        it: what one compiler happens to make of it is not believed."""
        try:
            return self.build(driver, "clang++", UNDEFINED, "undefined")
        except CheckError as e:
            self.notes["second_build"] = "none: " + str(e)[:300]
            return None

    def _conform(self, driver, scripts, module, cfg, name, env, exe, parts, other=None):
        files = self.drive(exe, scripts, name, env, parts)
        bad = self.validate(module, cfg, files)
        if bad is None and other:
            # the second build's traces: those that differ are validated, too
            files2 = self.drive(other, scripts, name + "-2", env, parts)
            self.notes["chunks_run_in_a_second_build"] = self.notes.get("chunks_run_in_a_second_build", 0) + len(scripts)
            differ = set()
            for f, g in zip(files, files2):
                with open(f) as a, open(g) as b:
                    x, y = lines_by_chunk(a), lines_by_chunk(b)
                differ |= {i for i in x.keys() | y.keys() if x.get(i) != y.get(i)}
                os.unlink(g)
            if differ:
                mine = [s for s in scripts if s.split("\n", 1)[0].split()[1] in differ]
                self._conform(driver, mine, module, cfg, name + "-2d", env, other, parts)
        if bad is None:
            for f in files:
                os.unlink(f)
            return
        f, obj, i = bad
        # confirm on a fresh run of that chunk alone
        ids = [s.split("\n", 1)[0].split()[1] for s in scripts]
        if obj["id"] not in ids:
            raise CheckError("rejected chunk has no script: " + obj["id"])
        k = ids.index(obj["id"])
        mine = [scripts[k]]
        files2 = self.drive(exe, mine, name + "-again", env, 1)
        bad2 = self.validate(module, cfg, files2)
        if bad2 is None:
            # or together with everything the same process did before it
            parts = max(1, min(parts, len(scripts)))
            mine = scripts[k % parts:k + 1:parts]
            files2 = self.drive(exe, mine, name + "-again", env, 1)
            bad2 = self.validate(module, cfg, files2)
        if bad2 is None:
            raise CheckError(f"rejection of chunk {obj['id']} was not reproducible")
        f, obj, i = bad2
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{self.prop}-{obj['id']}.json")
        ev = obj["ev"][i] if obj["ev"] else None
        with open(rp, "w") as fh:
            json.dump({"property": self.prop, "driver": driver, "script": "\n".join(mine), "spec": module, "config": cfg,
                       "rejected_event_index": i, "rejected_event": ev,
                       "preceding_events": obj["ev"][max(0, i - 8):i],
                       "build": os.path.basename(os.path.dirname(exe))[len("build-"):],
                       "how": "build harness/%s.cpp with /repo/src, feed it the script, validate with TLC (%s)"
                              % (driver, module)}, fh, indent=1)
        raise Violation(json.dumps(self._clip(ev)), rp)

    # ---- evidence --------------------------------------------------------
    def evidence(self, violations, level="model_checking", assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.chunks, "events_validated": self.events,
               "event_kinds": self.kinds, "design_models": self.models,
               "samples": self.samples or [{"note": "no trace was accepted before the violation"}]}
        cov.update(self.notes)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
             "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(d, f, indent=1)
            f.write("\n")


# decimal comma, grouped thousands, another lower case of I
LOCALES = {"de_DE.UTF-8": "UTF-8", "tr_TR.ISO-8859-9": "ISO-8859-9", "tr_TR.UTF-8": "UTF-8"}
UNDEFINED = ("-O1", "-fsanitize=undefined,float-cast-overflow,float-divide-by-zero", "-fsanitize-trap=all")


def lines_by_chunk(fh):
    return {ln[7:ln.index('"', 7)]: ln for ln in fh}


def q_workers(thorough):
    return 4 if thorough else 2


def chunks_of(lines, size, prefix):
    """Cut independent script lines into chunks."""
    return ["chunk %s%d\n%s" % (prefix, i, "\n".join(lines[k:k + size]))
            for i, k in enumerate(range(0, len(lines), size))]
