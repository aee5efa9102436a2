#!/usr/bin/env python3
"""Decides one property of jbcoe/value_types by symbolic execution of the real headers.

usage: check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--keep]

 1. compiles the harness translation units the plan names (plan.py) against
    /repo's current headers to LLVM IR (no optimisation);
 2. runs symx on every entry: all paths, Z3 decides every branch and assertion;
 3. replays any counterexample, and a sample of proved paths, natively;
 4. writes evidence/PROPERTY.json.
Exit: 0 held, 1 VIOLATION, 2 no answer.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
import plan  # noqa: E402

CLANG = "/usr/bin/clang++-18"
BUILD = os.path.join(VERIF, "build")
INC = ["-I" + REPO, "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness")]
JOBS = min(8, os.cpu_count() or 8)
# faults the executor itself detects; real undefined behaviour need not trap natively
EXECUTOR_KINDS = {"memory", "ub", "uninit", "frozen-write", "terminate", "uncaught", "libassert", "leak", "bound"}


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace")


def symx_path():
    """The executor, built from source when missing or older than its source."""
    exe = os.path.join(BUILD, "symx")
    src = os.path.join(VERIF, "symx", "symx.cc")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (exe, os.getpid())
        rc, out = sh([CLANG, "-std=c++17", "-O2", "-w", "-fexceptions", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
                      "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
                      src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
        if rc:
            print(out)
            print("cannot build symx")
            sys.exit(2)
        os.replace(tmp, exe)
    return exe


def lib_path():
    """Bitcode of rt/vplib.cc, linked on demand into every harness."""
    bc = os.path.join(BUILD, "vplib.bc")
    src = os.path.join(VERIF, "rt", "vplib.cc")
    if not os.path.exists(bc) or os.path.getmtime(bc) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = "%s.%d" % (bc, os.getpid())
        rc, out = sh([CLANG, "-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-g1", "-w", "-emit-llvm", "-c", src, "-o", tmp])
        if rc:
            print(out)
            print("cannot build vplib")
            sys.exit(2)
        os.replace(tmp, bc)
    return bc


def parts(tu):
    """(source, standard, defines) of each translation unit linked into one check."""
    t = plan.TUS[tu]
    return t.get("parts") or [(t["src"], t["std"], [])]


def compile_cmd(tu, native=None, part=0):
    t = plan.TUS[tu]
    src, std, defs = parts(tu)[part]
    cmd = [CLANG, "-std=c++" + str(t.get("lang", std)), "-w", "-fno-color-diagnostics", "-DVP_STD=%d" % std] + list(t["defs"]) + list(defs)
    if native is None:
        cmd += ["-O1", "-Xclang", "-disable-llvm-passes", "-g1", "-emit-llvm"]
    else:
        cmd += ["-O0", "-g1" if native == "san" else "-g0", "-rdynamic", "-DVP_NATIVE_BUILD"]
        if t.get("new_hook"):
            cmd += ["-DVP_NEW_HOOK"]
        if native == "san":
            cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
    return cmd + INC


class Run:
    def __init__(self, prop, tier, only, keep):
        self.prop, self.tier, self.only, self.keep = prop, tier, only, keep
        self.tmp = tempfile.mkdtemp(prefix="vpcheck-")
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.results = []     # (job, json)
        self.errors = []      # no answer
        self.compile_fail = []
        self.skipped = []     # translation units only clang rejects
        self.scans = {}
        self.native_ok = 0
        self.native_bad = []
        self.native_cache = {}
        self.to_validate = []

    # ---------------------------------------------------------------- build
    def compile_tu(self, tu):
        bc = os.path.join(self.tmp, tu + ".bc")
        ps = parts(tu)
        objs = [bc] if len(ps) == 1 else ["%s.%d" % (bc, i) for i in range(len(ps))]
        for i, o in enumerate(objs):
            rc, out = sh(compile_cmd(tu, part=i) + ["-c", os.path.join(VERIF, "harness", ps[i][0]), "-o", o], timeout=300)
            if rc:
                return None, out
        if len(ps) > 1:
            rc, out = sh(["/usr/bin/llvm-link-18"] + objs + ["-o", bc], timeout=120)
            if rc:
                raise RuntimeError("llvm-link failed: " + out)
        rc, out = sh([self.symx, "--scan", bc], timeout=120)
        if rc:
            raise RuntimeError("scan failed: " + out)
        self.scans[tu] = json.loads(out)
        return bc, ""

    def native(self, tu, kind):
        """Native build of the harness with the replay runtime."""
        with self.lock:
            ev = self.native_cache.get((tu, kind))
            if ev is None:
                self.native_cache[(tu, kind)] = ev = cf.Future()
                mine = True
            else:
                mine = False
        if mine:
            exe = os.path.join(self.tmp, "%s.%s" % (tu, kind))
            ps = parts(tu)
            srcs = [os.path.join(VERIF, "harness", ps[0][0])]
            rc = 0
            if len(ps) > 1:
                srcs = []
                for i in range(len(ps)):
                    o = "%s.%d.o" % (exe, i)
                    rc, out = sh(compile_cmd(tu, kind, i) + ["-c", os.path.join(VERIF, "harness", ps[i][0]), "-o", o], timeout=600)
                    srcs.append(o)
                    if rc:
                        break
            if rc == 0:
                rc, out = sh(compile_cmd(tu, kind) + srcs + [os.path.join(VERIF, "rt", "vprt.cc"), "-o", exe, "-ldl", "-lpthread"], timeout=600)
            ev.set_result((exe, "") if rc == 0 else (None, out))
        return ev.result()

    def replay_text(self, tu, entry, nd):
        return "prop %s\ntu %s\nentry %s\n" % (self.prop, tu, entry) + "".join("nd %d %d %s\n" % (w, v, n) for n, w, v in nd)

    def run_native(self, tu, entry, text, kind):
        exe, out = self.native(tu, kind)
        if not exe:
            return None, "native build failed:\n" + out
        f = tempfile.NamedTemporaryFile("w", dir=self.tmp, suffix=".replay", delete=False)
        f.write(text)
        f.close()
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=66:print_stacktrace=1")
        if plan.TUS[tu].get("pages"):
            env["VP_PAGES"] = "1"
            env["ASAN_OPTIONS"] += ":handle_segv=0"
        cmd = [exe, f.name, entry]
        if kind == "vg":
            cmd = ["valgrind", "-q", "--error-exitcode=66", exe, f.name, entry]
        return sh(cmd, timeout=60, env=env)

    # ---------------------------------------------------------------- jobs
    def jobs(self):
        out = []
        for tu, entry, opt in plan.plan_for(self.prop, self.tier):
            if self.only and not re.search(self.only, tu + "/" + entry):
                continue
            split = opt.get("split")
            base = {"tu": tu, "entry": "vpH_" + entry, "name": entry, "opt": opt}
            if split:
                var, ranges = split
                for lo, hi in ranges:
                    out.append(dict(base, assume=(var, lo, hi)))
            else:
                out.append(base)
        return out

    def run_job(self, job, bc):
        o = tempfile.NamedTemporaryFile(dir=self.tmp, suffix=".json", delete=False)
        o.close()
        opt = job["opt"]
        cmd = [self.symx, "--lib", self.lib, "--prop", self.prop, "--entry", job["entry"], "--out", o.name, "--repo", REPO.rstrip("/") + "/",
               "--time", str(opt.get("time", 600 if self.tier == "quick" else 800)), "--max-viol", "3", "--samples", "6"]
        if "steps" in opt:
            cmd += ["--max-steps", str(opt["steps"])]
        if "depth" in opt:
            cmd += ["--max-depth", str(opt["depth"])]
        for a in opt.get("pin", ()):
            cmd += ["--assume", "%s:%d:%d" % a]
        if "assume" in job:
            cmd += ["--assume", "%s:%d:%d" % job["assume"]]
        if job.get("dump"):
            cmd += ["--dump", job["dump"]]
        cmd.append(bc)
        rc, out = sh(cmd, timeout=840)
        if rc not in (0, 1, 2):
            with self.lock:
                self.errors.append("%s/%s: executor failed (rc %s): %s" % (job["tu"], job["name"], rc, out[-600:]))
            return
        j = json.load(open(o.name))
        with self.lock:
            self.results.append((job, j))
            if rc == 2:
                self.errors.append("%s/%s: incomplete: %s" % (job["tu"], job["name"], j["why"]))
        # some proved paths are re-run against the real code at the end
        if rc == 0 and not opt.get("no_native"):
            with self.lock:
                for x in j["samples"] if self.tier == "thorough" else j["samples"][-2:]:
                    self.to_validate.append((job, x))

    def validate(self, job, x):
        text = self.replay_text(job["tu"], job["entry"], [("", w, v) for w, v in x])
        nrc, nout = self.run_native(job["tu"], job["entry"], text, "plain")
        with self.lock:
            if nrc == 0 and "VP-COMPLETED" in nout:
                self.native_ok += 1
            else:
                self.native_bad.append((job, text, nrc, nout[-1500:]))

    # ---------------------------------------------------------------- main
    def main(self):
        self.symx = symx_path()
        self.lib = lib_path()
        jobs = self.jobs()
        if not jobs:
            print("nothing to run for " + self.prop)
            return 2
        tus = []
        for j in jobs:
            if j["tu"] not in tus:
                tus.append(j["tu"])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            comp = {ex.submit(self.compile_tu, t): t for t in sorted(tus, key=lambda t: -plan.TUS[t].get("weight", 1))}
            nat = [ex.submit(self.native, t, "plain") for t in sorted({j["tu"] for j in jobs if not j["opt"].get("no_native")}, key=lambda t: -plan.TUS[t].get("weight", 1))]
            futs = []
            for f in cf.as_completed(comp):
                t = comp[f]
                bc, log = f.result()
                if bc is None:
                    # valid C++ that clang 18 alone rejects is no violation: encode the rest
                    if self.gcc_accepts(t):
                        self.skipped.append(t)
                    else:
                        self.compile_fail.append((t, log))
                    continue
                for j in sorted((j for j in jobs if j["tu"] == t), key=lambda j: -j["opt"].get("weight", 1)):
                    if j["entry"] not in self.scans[t]:
                        self.errors.append("%s has no entry %s" % (t, j["entry"]))
                        continue
                    futs.append(ex.submit(self.run_job, j, bc))
            for f in futs + nat:
                f.result()
            for t in self.skipped:
                print("NOTE: %s not encoded: clang rejects it, gcc accepts it" % t)
            if self.skipped and not self.results:
                self.errors.append("no translation unit could be encoded")
            list(ex.map(lambda a: self.validate(*a), self.to_validate))
            viols = self.collect(ex)
        return self.report(viols, jobs, tus)

    def gcc_accepts(self, tu):
        for i, p in enumerate(parts(tu)):
            cmd = ["/usr/bin/g++", "-fsyntax-only"] + [c for c in compile_cmd(tu, part=i)[1:] if c not in ("-Xclang", "-disable-llvm-passes", "-emit-llvm", "-fno-color-diagnostics")]
            if sh(cmd + [os.path.join(VERIF, "harness", p[0])], timeout=300)[0]:
                return False
        return True

    def header_compiles(self, tu):
        t = plan.TUS[tu]
        for std in sorted({s for _, s, _ in parts(tu)}):
            src = os.path.join(self.tmp, "probe%d.cc" % std)
            hs = t["headers"] if "parts" not in t else plan.H20 if std == 20 else plan.H14
            with open(src, "w") as f:
                f.write("".join('#include "%s"\n' % h for h in hs) + "int main() {}\n")
            if sh([CLANG, "-std=c++" + str(t.get("lang", std)), "-w", "-fsyntax-only"] + INC + [src], timeout=120)[0]:
                return False
        return True

    def collect(self, ex):
        """Violations, natively replayed."""
        out, seen = [], set()
        cand = []
        for job, j in self.results:
            for v in j["violations"]:
                key = (job["tu"], job["name"], v["kind"], v["label"])
                if key in seen:
                    continue
                seen.add(key)
                cand.append((job, v))
        kn = self.known()
        listed = [c for c in cand if self.match(kn, *c)]
        cand = listed[:2] + [c for c in cand if c not in listed][:12]

        def one(job, v):
            text = self.replay_text(job["tu"], job["entry"], v["nondet"])
            kind = "vg" if v["kind"] == "uninit" else "san"
            if plan.TUS[job["tu"]].get("new_hook") and kind == "san":
                kind = "plain"
            if kind == "vg":
                self.native_cache.setdefault((job["tu"], "vg"), None) or self.native_cache.pop((job["tu"], "vg"), None)
            rc, log = self.run_native(job["tu"], job["entry"], text, kind)
            if rc is None:
                status = "unconfirmed: " + log[:400]
            elif rc == 77:
                status = "confirmed"
            elif rc in (98, 99):
                status = "unconfirmed: replay diverged"
            elif rc == -999:
                status = "confirmed (does not terminate)"
            elif rc != 0:
                status = "confirmed (sanitizer or abnormal termination, rc %s)" % rc
            else:
                status = "not visible natively"
            return dict(job=job, v=v, text=text, status=status, log=log)

        res = list(ex.map(lambda a: one(*a), cand)) if cand else []
        for r in res:
            if r["status"].startswith("confirmed"):
                out.append(r)
            elif r["v"]["kind"] in EXECUTOR_KINDS and not r["status"].startswith("unconfirmed: replay"):
                r["status"] += " (reported on the executor's evidence)"
                out.append(r)
            else:
                self.errors.append("%s/%s: counterexample to '%s' %s\n%s" % (r["job"]["tu"], r["job"]["name"], r["v"]["label"], r["status"], r["log"][-800:]))
        for job, text, nrc, nout in self.native_bad:
            if nrc == 77:
                m = re.search(r"VP-(?:ASSERT-FAILED|LEAK) (.*)", nout)
                out.append(dict(job=job, v={"kind": "assert", "label": m.group(1) if m else "?", "loc": "native replay of an explored path", "stack": "", "nondet": []},
                                text=text, status="confirmed (native replay)", log=nout))
            else:
                self.errors.append("%s/%s: native replay of a proved path failed (rc %s): %s" % (job["tu"], job["name"], nrc, nout[-800:]))
        return out

    def known(self):
        ks = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) tu=(\S+) entry=(\S+) kind=(\S+) label=\"([^\"]*)\"(?: where=\"([^\"]*)\")? :: (.*)", line)
                if m and m.group(1) == self.prop:
                    ks.append(m.groups())
        return ks

    def match(self, kn, job, v):
        for k in kn:
            if re.fullmatch(k[1], job["tu"]) and k[2] == job["name"] and k[3] == v["kind"] and k[4] in v["label"] and (not k[5] or re.search(k[5], v["stack"])):
                return k
        return None

    def report(self, viols, jobs, tus):
        prop = self.prop
        new, listed = [], set()
        kn = self.known()
        for r in viols:
            hit = self.match(kn, r["job"], r["v"])
            if hit:
                listed.add(hit)
            else:
                new.append(r)
        for k in sorted(listed, key=str):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[6]))
        rdir = os.path.join(BUILD, "replays", prop)
        os.makedirs(rdir, exist_ok=True)
        lines = []
        for t, log in self.compile_fail:
            if self.header_compiles(t):
                p = os.path.join(rdir, "compile-%s.txt" % t)
                with open(p, "w") as f:
                    f.write("# The operations property %s is about no longer compile:\n# %s\n%s" % (prop, " ".join(compile_cmd(t)), log))
                lines.append((p, "operations exercised by %s do not compile: %s" % (t, next((l for l in log.splitlines() if "error" in l), "")[:300])))
            else:
                self.errors.append("headers of %s do not compile" % t)
        for i, r in enumerate(new):
            p = os.path.join(rdir, "%02d-%s-%s.replay" % (i, r["job"]["tu"], r["job"]["name"]))
            with open(p, "w") as f:
                f.write(r["text"])
                f.write("# %s: %s at %s\n# native replay: %s\n" % (r["v"]["kind"], r["v"]["label"], r["v"]["loc"], r["status"]))
                f.write("".join("# " + l + "\n" for l in r["v"]["stack"].splitlines()))
                f.write("".join("# | " + l + "\n" for l in r["log"].splitlines()[:60]))
                f.write("# rerun: python3 %s/replay.py %s\n" % (HERE, p))
            lines.append((p, "%s/%s: %s: %s [%s]" % (r["job"]["tu"], r["job"]["name"], r["v"]["kind"], r["v"]["label"], r["status"])))
        # vacuity: every cover point must have been reached somewhere
        declared, reached = {}, {}
        for job, j in self.results:
            k = (plan.TUS[job["tu"]]["src"], job["name"])
            declared.setdefault(k, set()).update(self.scans[job["tu"]][job["entry"]]["covers"])
            reached.setdefault(k, set()).update(j["covers"])
        missing = sorted("%s/%s: %s" % (k[0], k[1], c) for k in declared for c in declared[k] - reached[k])
        if missing and not lines and not self.errors and not self.only and not listed:
            self.errors.append("cover points never reached: " + "; ".join(missing[:6]))
        self.evidence(jobs, tus, len(lines), listed, missing, declared)
        for p, msg in lines:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, p))
        for e in self.errors:
            print("NO-ANSWER: " + e)
        tot = sum(j["paths"] for _, j in self.results)
        print("%s %s: %d entries, %d paths, %d queries, %d proved paths replayed natively, %.1f s" % (
            prop, self.tier, len(self.results), tot, sum(j["queries"] for _, j in self.results), self.native_ok, time.time() - self.t0))
        return 1 if lines else 2 if self.errors else 0

    def evidence(self, jobs, tus, nviol, listed, missing, declared):
        S = lambda k: sum(j[k] for _, j in self.results)
        asserts, functions, lines = {}, set(), {}
        for _, j in self.results:
            for l, n in j["asserts"].items():
                asserts[l] = asserts.get(l, 0) + n
            functions.update(j["functions"])
            for l in j["lines"]:
                f, n = l.rsplit(":", 1)
                lines.setdefault(f, set()).add(int(n))
        own = [l for l in asserts if self.prop in l.split(":")[0].split(",")]
        samples = []
        for job, j in self.results:
            if j["samples"]:
                samples.append({"tu": job["tu"], "entry": job["name"], "model_of_one_proved_path": j["samples"][-1]})
        e = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
            "coverage": {
                "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": self.native_ok,
                "samples": samples[:8], "exhaustive": not self.errors,
                "explanation": "states = symbolic paths explored (each stands for all inputs satisfying its path condition); transitions = LLVM IR instructions executed symbolically; traces = solver models of proved paths re-run natively against the real headers",
                "bounds": plan.BOUNDS.get(self.prop, ""),
                "translation_units": {t: "+".join(p[0] for p in parts(t)) if "parts" in plan.TUS[t] else "c++%s %s %s" % (plan.TUS[t].get("lang", plan.TUS[t]["std"]), plan.TUS[t]["src"], " ".join(plan.TUS[t]["defs"])) for t in tus},
                "functions_encoded": sorted(functions), "functions_encoded_count": len(functions),
                "header_lines_encoded": {f: len(v) for f, v in lines.items()},
                "queries": {"total": S("queries"), "sat": S("sat"), "unsat": S("unsat")}, "solver_s": round(S("solver_s"), 3),
                "assertions": {"decided_by_a_query": S("assert_queries"), "queries_unsat": S("assert_proved"), "decided_by_simplification": S("assert_concrete")},
                "assertions_of_this_property": {l: asserts[l] for l in sorted(own)},
                "cover_points": {"declared": sum(len(v) for v in declared.values()), "never_reached": missing},
                "entries": [{"tu": job["tu"], "entry": job["name"], "assume": job.get("assume"), "paths": j["paths"], "queries": j["queries"], "wall_s": j["wall_s"]} for job, j in self.results],
                "known_findings_seen": [k[6] for k in sorted(listed, key=str)],
                "no_answer": self.errors, "not_encoded_clang_rejects": self.skipped,
            },
            "assumptions": plan.ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2), "violations": nviol,
        }
        if self.only:
            return
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1)
        os.replace(p + ".tmp", p)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only, keep, prop = None, False, None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--keep":
            keep = True
        elif a == "--setup":
            symx_path()
            lib_path()
            return 0
        else:
            prop = a
    r = Run(prop, tier, only, keep)
    try:
        return r.main()
    finally:
        if keep:
            print("kept " + r.tmp)
        else:
            shutil.rmtree(r.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
