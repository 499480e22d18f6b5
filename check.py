#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /repo's current tree.

1. generate the Verus units of the property from /repo's current source (lib/unit.py), verify them;
   a probe copy with `assert(false)` at every function end and loop body must fail everywhere (vacuity guard)
2. run the property's Kani harnesses, if any, on the real crate
3. run the native random search against the real crate, to replay a failed obligation as a concrete failing input
"""
import json, os, re, subprocess, sys, time, threading, hashlib, shutil
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import unit as U
from rustx import Lost
from props import PROPS

REPO = "/repo"
EV = os.path.join(ROOT, "evidence")
BUILD = os.path.join(ROOT, "build")
T0 = time.time()
FOUND = {}  # set once the search has a failing input


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUST_BACKTRACE="0", TZ="UTC", CARGO_TARGET_DIR=os.path.join(BUILD, "native"), RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             CARGO_PROFILE_DEV_DEBUG="0")
    e.pop("RUSTFLAGS", None)
    return e


# ---------------------------------------------------------------- native search
class Native:
    """build a search crate in the background, then search"""

    def __init__(self, crate):
        self.crate = crate
        self.dir = os.path.join(ROOT, "native", crate)
        self.out, self.ok = "", None
        self.th = threading.Thread(target=self._build)
        self.th.start()

    def _build(self):
        p = subprocess.run(["cargo", "build", "--offline"], cwd=self.dir, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.ok, self.out = p.returncode == 0, p.stdout[-4000:]

    def search(self, prop, seed, secs, threads, known):
        self.th.join()
        if not self.ok:
            return {"built": False, "log": self.out}
        e = env()
        e["TE_KNOWN"] = "\x1f".join(known)
        exe = os.path.join(BUILD, "native", "debug", self.crate)
        try:
            p = subprocess.run([exe, prop, str(seed), str(secs), str(threads)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired as x:
            return {"built": True, "rc": "timeout", "fail": None, "out": "", "evals": 0, "log": "search did not stop in time"}
        o = p.stdout
        g = lambda k: next((l[len(k) + 1:] for l in o.splitlines() if l.startswith(k + " ")), None)
        r = {"built": True, "rc": p.returncode, "fail": g("FAIL"), "seed": g("SEED"), "out": o[-20000:], "evals": int(g("EVALS") or 0), "episodes": int(g("EPISODES") or 0),
             "interesting": int(g("INTERESTING") or 0), "log": p.stderr[-2000:], "known": [l[6:] for l in o.splitlines() if l.startswith("KNOWN ")],
             "samples": [l[7:] for l in o.splitlines() if l.startswith("SAMPLE ")]}
        if p.returncode not in (0, 1):
            r["fail"] = None
        return r


# ---------------------------------------------------------------- verus
def verus(path, *extra, timeout=800):
    t = time.time()
    try:
        p = subprocess.run(["verus", os.path.basename(path), "--triggers-mode", "silent", "--output-json", "--time-expanded"] + list(extra) + ["--", "--error-format=json"],
                           cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env={**os.environ, "RUST_MIN_STACK": str(1 << 26)})
    except subprocess.TimeoutExpired:
        return {"ran": False, "why": "timeout", "diags": [], "fns": [], "verified": 0, "errors": 0, "secs": time.time() - t, "smt_ms": 0}
    diags = []
    for l in p.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("$message_type") == "diagnostic":
            diags.append(d)
    try:
        j = json.loads(p.stdout)
        vr = j["verification-results"]
    except (ValueError, KeyError):
        return {"ran": False, "why": "no result (exit %s)" % p.returncode, "diags": diags, "fns": [], "verified": 0, "errors": 0, "secs": time.time() - t, "smt_ms": 0, "err": p.stderr[-3000:]}
    fns = [f for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for f in m["function-breakdown"]]
    ran = not vr.get("encountered-vir-error") and "verified" in vr and (bool(fns) or vr.get("verified", 0) > 0)
    return {"ran": ran, "why": "" if ran else "front-end error", "diags": diags, "fns": fns, "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "secs": time.time() - t,
            "smt_ms": j.get("times-ms", {}).get("smt", {}).get("total", 0), "err": "" if ran else p.stderr[-3000:]}


def dlines(d):
    for s in d["spans"]:
        for ln in range(s["line_start"], s["line_end"] + 1) if s["line_end"] - s["line_start"] < 3 else [s["line_start"]]:
            yield ln, s


class UnitRun:
    """verification of one generated unit"""

    def __init__(self, name, tier, seed):
        self.name, self.tier, self.seed = name, tier, seed
        self.lost = None
        self.failed = []       # obligations: dict(fn, tags, msg, text)
        self.undecided = []    # fn names
        self.vacuous = []
        self.res = None
        self.dir = os.path.join(BUILD, "units", "%s_%d" % (name, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.u = U.Unit(os.path.join(ROOT, "specs", name + ".unit"), REPO)
        self.secs = 0
        self.probes = 0
        self.smt_ms = 0
        self.passes = []

    def path(self, k=""):
        return os.path.join(self.dir, self.name + k + ".rs")

    def fn_at(self, ln):
        for f in self.u.fns:
            if f["gen"] <= ln <= f["gen_end"]:
                return f
        return None

    def generate(self):
        txt = self.u.build()
        open(self.path(), "w").write(txt)
        self.lines = txt.split("\n")
        self.map = list(self.u.map)
        self.fns = [dict(f) for f in self.u.fns]

    def errors_of(self, r):
        """rustc-style errors -> list of (fn or None, tags, message, rendered, kind)"""
        out = []
        for d in r["diags"]:
            if d["level"] != "error" or d["message"].startswith("aborting due to"):
                continue
            f, tags = None, None
            for ln, s in dlines(d):
                if ln - 1 < len(self.map):
                    k, fn, p = self.map[ln - 1]
                    if k == "clause" and s["label"] and "failed this postcondition" in s["label"]:
                        tags = set(p)
                if f is None or s["is_primary"]:
                    g = self.fn_at(ln)
                    if g is not None:
                        f = g
            # the function whose proof failed is the one holding the exit / call, not the callee whose requires is quoted
            for s in d["spans"]:
                if s["is_primary"] and not (s["label"] or "").startswith("failed this pre"):
                    g = self.fn_at(s["line_start"])
                    if g is not None:
                        f = g
            kind = "rlimit" if "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower() else "fail"
            out.append((f["fn"] if f else None, tags, d["message"], d.get("rendered") or d["message"], kind))
        return out

    def run(self):
        try:
            self._run()
        except Lost as e:
            self.lost = "anchor lost: %s" % e
        except Exception as e:  # machinery trouble is never an alarm
            import traceback
            self.lost = "machinery: %s %s" % (e, traceback.format_exc()[-600:])
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self):
        t0 = time.time()
        # probe pass runs beside the main pass
        pr = {}

        def probe():
            try:
                pu = U.Unit(self.u.path, REPO)
                pu.demote = dict(self.u.demote)
                pu.light = self.tier == "quick"
                txt = pu.build(probe=True)
                open(self.path("_probe"), "w").write(txt)
                r = verus(self.path("_probe"), "--rlimit", "2", "--multiple-errors", "6")
                pr.update(unit=pu, res=r, lines=txt.split("\n"))
            except Exception as e:
                pr.update(err=str(e))
        for attempt in range(8):
            self.generate()
            if attempt == 0:
                th = threading.Thread(target=probe)
                th.start()
            r = verus(self.path(), "--num-threads", "4", "--multiple-errors", "3")
            self.passes.append({"ran": r["ran"], "why": r["why"], "verified": r["verified"], "errors": r["errors"], "secs": round(r["secs"], 1)})
            if r["ran"]:
                break
            if r["why"] == "timeout":
                self.lost = "verifier timed out"
                break
            bad = {}
            for fn, tags, msg, ren, kind in self.errors_of(r):
                if fn is not None and fn not in self.u.demote:
                    bad[fn] = "not accepted by the verifier's front end: " + msg[:200]
            if not bad:
                self.lost = "generated unit not accepted: " + "; ".join(m for _, _, m, _, _ in self.errors_of(r))[:600] + r.get("err", "")[:200]
                break
            self.u.demote.update(bad)
        else:
            self.lost = "generated unit not accepted after demoting %s" % sorted(self.u.demote)
        self.res = r
        self.smt_ms += r["smt_ms"]
        if not self.lost:
            self._judge(r)
            if self.tier == "thorough":
                for k in (1, 2):
                    r2 = verus(self.path(), "--smt-option", "smt.random_seed=%d" % (self.seed * 10 + k))
                    self.passes.append({"seed": self.seed * 10 + k, "verified": r2["verified"], "errors": r2["errors"], "secs": round(r2["secs"], 1)})
                    self.smt_ms += r2["smt_ms"]
        th.join()
        self._probes(pr)
        self.secs = time.time() - t0

    def _judge(self, r):
        errs = self.errors_of(r)
        if not errs and r["errors"] == 0:
            return
        todo = sorted({f for f, *_ in errs if f is not None})
        if any(f is None for f, *_ in errs):
            # a lemma or specification, independent of /repo: solver trouble, not a finding
            self.undecided.append("lemma: " + "; ".join(m for f, _, m, _, _ in errs if f is None)[:300])
        first = {f: [e for e in errs if e[0] == f] for f in todo}
        lock = threading.Lock()

        def again(f):
            if FOUND.get("input") and [e for e in first[f] if e[4] == "fail"]:
                # the search already has a concrete failing input: nothing to double-check
                with lock:
                    for _, tags, msg, ren, kind in first[f]:
                        if kind == "fail":
                            self.failed.append({"fn": f, "tags": tags, "msg": msg, "text": ren})
                return
            # believe a failure only if it persists with another solver seed and more resources
            pat = f.split("::")[-1] if "::" not in f else "::".join(f.split("::")[-2:])
            last, ran = first[f], True
            for k in (1, 2):
                r2 = verus(self.path(), "--verify-root", "--verify-function", pat, "--rlimit", "30", "--multiple-errors", "3", "--smt-option", "smt.random_seed=%d" % (7 * k + self.seed), timeout=200)
                with lock:
                    self.passes.append({"fn": f, "retry": k, "ran": r2["ran"], "verified": r2["verified"], "errors": r2["errors"], "secs": round(r2["secs"], 1)})
                    self.smt_ms += r2["smt_ms"]
                if not r2["ran"]:
                    continue
                e2 = [e for e in self.errors_of(r2) if e[0] == f]
                if not e2 and r2["errors"] == 0 and r2["verified"] > 0:
                    return
                hard = [e for e in e2 if e[4] == "fail"]
                if hard:
                    last = e2
                    if k == 2 or [e for e in first[f] if e[4] == "fail"]:
                        break
            hard = [e for e in last if e[4] == "fail"]
            with lock:
                if hard:
                    for _, tags, msg, ren, _ in hard:
                        self.failed.append({"fn": f, "tags": tags, "msg": msg, "text": ren})
                else:
                    self.undecided.append(f)
        ths = [threading.Thread(target=again, args=(f,)) for f in todo[:8]]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for f in todo[8:]:
            for _, tags, msg, ren, kind in first[f]:
                if kind == "fail":
                    self.failed.append({"fn": f, "tags": tags, "msg": msg, "text": ren})

    def _probes(self, pr):
        if self.lost:
            return
        if "res" not in pr or not pr["res"]["ran"]:
            if not self.u.demote:
                self.vacuous.append("probe pass did not run: %s" % (pr.get("err") or pr.get("res", {}).get("why")))
            return
        want = {}
        for i, l in enumerate(pr["lines"]):
            m = re.search(r"//probe:(.*)$", l)
            if m:
                want[i + 1] = m.group(1)
        hit = set()
        soft = set()
        for d in pr["res"]["diags"]:
            if d["level"] != "error":
                continue
            rl = "rlimit" in d["message"].lower() or "resource limit" in d["message"].lower()
            for s in d["spans"]:
                if rl:
                    for f in pr["unit"].fns:
                        if f["gen"] <= s["line_start"] <= f["gen_end"]:
                            soft.add(f["fn"])
                hit.add(s["line_start"])
        dem = set(pr["unit"].demote) | set(self.u.demote)
        self.probes = len(want)
        for ln, name in want.items():
            fn = name.rsplit(":", 1)[0]
            if ln not in hit and fn not in soft and fn not in dem:
                self.vacuous.append(name)

    # ------------------------------------------------ which functions a property rests on
    def cone(self, prop):
        names = {}
        for f in self.fns:
            names.setdefault(f["fn"].split("::")[-1], []).append(f)
        roots = [f for f in self.fns if prop in f["props"]]
        seen = {f["fn"]: f for f in roots}
        work = list(roots)
        while work:
            f = work.pop()
            body = "\n".join(self.lines[f["gen"] - 1:f["gen_end"]])
            for n in set(re.findall(r"\b(\w+)\s*(?:::<[^>]*>)?\(", body)):
                for g in names.get(n, []):
                    if g["fn"] not in seen:
                        seen[g["fn"]] = g
                        work.append(g)
        return seen

    def relevant(self, prop):
        c = self.cone(prop)
        out = []
        for e in self.failed:
            f = c.get(e["fn"])
            if f is None:
                continue
            if e["tags"] is not None and prop in f["props"] and prop not in e["tags"]:
                continue
            out.append(e)
        und = [x for x in self.undecided if x.startswith("lemma") or x in c]
        dem = {k: v for k, v in self.u.demote.items() if k in c}
        vac = [v for v in self.vacuous if v.startswith("probe pass") or v.rsplit(":", 1)[0] in c]
        return c, out, und, dem, vac


# ---------------------------------------------------------------- kani
class Kani:
    """run harnesses of /verif/native/kn on the real crate; the contracts are the assumptions and assertions in them"""

    def __init__(self, spec, tier):
        self.spec = spec or {}
        self.h = list(self.spec.get("harness", [])) + (list(self.spec.get("thorough", [])) if tier == "thorough" else [])
        self.res, self.lost, self.out = {}, None, ""
        self.secs = 0
        self.th = threading.Thread(target=self._run, args=(tier,))
        self.th.start()

    def _run(self, tier):
        if not self.h:
            return
        t0 = time.time()
        d = os.path.join(ROOT, "native", self.spec.get("crate", "kn"))
        e = env()
        e.pop("RUSTUP_TOOLCHAIN")
        tgt = os.path.join(BUILD, "kani_%d" % os.getpid())
        e["CARGO_TARGET_DIR"] = tgt
        cmd = ["cargo", "kani", "-j", "6", "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing", "--features", self.spec["features"]]
        for h in self.h:
            cmd += ["--harness", h]
        cmd += ["--exact"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=780)
            self.out = p.stdout
        except subprocess.TimeoutExpired as x:
            self.out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
            self.lost = "kani timed out"
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
        self._parse()
        self.secs = time.time() - t0

    def _parse(self):
        cur = {}
        for l in self.out.splitlines():
            m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
            if m:
                cur[m.group(1)] = m.group(2)
                self.res.setdefault(m.group(2), {"status": None, "failed": [], "time": 0.0, "text": ""})
            m = re.match(r"Thread (\d+):", l)
            th = m.group(1) if m else None
            h = cur.get(th) or (list(cur.values())[-1] if cur else None)
            if th:
                self.active = h
            h = getattr(self, "active", None) or h
            if not h:
                continue
            r = self.res[h]
            r["text"] += l + "\n"
            m = re.search(r"Failed Checks: (.*)", l)
            if m:
                r["failed"].append(m.group(1))
            m = re.search(r"VERIFICATION:- (\w+)", l)
            if m:
                r["status"] = m.group(1)
            m = re.search(r"Verification Time: ([\d.]+)s", l)
            if m:
                r["time"] = float(m.group(1))


# ---------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def scan_trusted(lines):
    tb = []
    txt = "\n".join(lines)
    for m in re.finditer(r"(external_body|assume_specification|external_type_specification|\badmit\(\)|\bassume\()", txt):
        ln = txt.count("\n", 0, m.start())
        ctx = lines[ln].strip()
        if "external_body" in ctx and "fn " not in ctx and ln + 1 < len(lines):
            ctx += " " + lines[ln + 1].strip()
        tb.append(ctx[:160])
    return sorted(set(tb))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    os.makedirs(EV, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    kf = known(prop)
    nat = Native(P["native"]) if P.get("native") else None
    kan = Kani(P.get("kani"), tier)
    runs = [UnitRun(n, tier, seed) for n in P.get("units", [])]
    ths = [threading.Thread(target=r.run) for r in runs]
    [t.start() for t in ths]
    first = nat.search(prop, seed, P.get("secs", 10) if tier == "quick" else 240, 4, [k for k, _ in kf]) if nat else None
    FOUND["input"] = bool(first and first.get("fail"))
    [t.join() for t in ths]
    kan.th.join()

    failed, undec, bounded, fns, trusted, extr = [], [], {}, {}, [], []
    oblig = disch = 0
    for r in runs:
        if r.lost:
            undec.append("%s: %s" % (r.name, r.lost))
            continue
        c, fl, und, dem, vac = r.relevant(prop)
        failed += [dict(x, unit=r.name) for x in fl]
        undec += ["%s: %s undecided (resource limit)" % (r.name, x) for x in und]
        undec += ["%s: %s is vacuous under its contract" % (r.name, x) for x in vac]
        undec += ["%s: %s: %s" % (r.name, k, v) for k, v in dem.items()]
        bounded.update(dem)
        for k, f in c.items():
            if k not in dem:
                fns[k] = f["file"]
        trusted += scan_trusted(r.lines)
        # obligations: the queries of this unit that the property rests on (its functions and every lemma)
        crate = r.name + "::"
        other = {f["fn"] for f in r.fns} - set(c)
        for q in r.res["fns"]:
            n = q["function"][len(crate):] if q["function"].startswith(crate) else q["function"]
            if n in other:
                continue
            oblig += 1
            disch += 1 if q["success"] else 0
    for h in kan.h:
        q = kan.res.get(h)
        oblig += 1
        if q is None or q["status"] is None:
            undec.append("kani %s: no result (%s)" % (h, kan.lost or kan.out[-300:].replace("\n", " ")))
        elif q["status"] == "SUCCESSFUL":
            disch += 1
        else:
            real = [x for x in q["failed"] if "unwinding assertion" not in x and "is not currently supported" not in x and "structure:" not in x]
            if real:
                failed.append({"fn": h, "tags": None, "msg": "; ".join(real)[:400], "text": q["text"][-4000:], "unit": "kani"})
            else:
                undec.append("kani %s: %s" % (h, "; ".join(q["failed"])[:200]))

    nres = first
    evals = nres.get("evals", 0) if nres else 0
    if nat and nres.get("built") and not nres.get("fail") and (failed or undec):
        # look harder for a concrete failing input
        left = max(30, min(150, 780 - (time.time() - T0)))
        nres = nat.search(prop, seed + 1000, left, 8, [k for k, _ in kf])
        evals += nres.get("evals", 0)
    if nat and not nres.get("built"):
        undec.append("search crate does not build against this tree: " + nres["log"][-300:])

    replay = os.path.join(EV, "replay_%s.txt" % prop)
    violation = None
    tail = ""
    if nres and nres.get("fail"):
        violation = nres["fail"]
    elif failed:
        violation = "obligation not discharged: " + "; ".join("%s %s: %s" % (x["unit"], x["fn"], x["msg"]) for x in failed)[:600]
        tail = " no-failing-input-found"
    if violation:
        with open(replay, "w") as f:
            f.write("property %s\n%s\n\n" % (prop, violation))
            if nres and nres.get("fail"):
                f.write("failing input on the real code (native/%s); re-run: build/native/debug/%s %s --replay %s\n%s\n\n" % (nat.crate, nat.crate, prop, nres["seed"], nres["out"]))
            for x in failed:
                f.write("failed obligation in %s (unit %s)\n%s\n\n" % (x["fn"], x["unit"], x["text"]))
            if undec:
                f.write("undecided: %s\n" % "\n".join(undec))

    cov = {
        "obligations": oblig, "discharged": disch,
        "checker_cmd": "verus <unit generated from /repo by lib/unit.py> (units: %s)%s" % (", ".join(P.get("units", [])) or "none", "; cargo kani --harness ... (%s)" % ", ".join(kan.h) if kan.h else ""),
        "trusted_base": sorted(set(trusted)) + P.get("trusted", []),
        "functions_under_contract": {**fns, **{f: "by Kani harnesses" for f in kan.spec.get("covers", [])}}, "functions_not_proved_on_this_run": bounded, "undecided": undec,
        "back_ends": "Verus/Z3" + (" and Kani/CBMC" if kan.h else ""),
        "solver_ms": sum(r.smt_ms for r in runs), "passes": {r.name: r.passes for r in runs}, "vacuity_probes": {r.name: r.probes for r in runs},
        "kani": {k: {"status": v["status"], "time_s": v["time"]} for k, v in kan.res.items()},
        "extraction": "function bodies are re-emitted from /repo token by token; dropped: attributes, visibility, log/format strings; rewritten: collection and iterator calls to contract-carrying shims (specs/shim_collections.rs), for/while loops to loop with invariants, macros as listed in lib/rustx.py",
        "bounded_search": {"evaluations": evals, "what": "random operation sequences on the real crate compared with a plain reference; never counted as proof", "interesting": (nres or {}).get("interesting", 0)},
        "failed_obligations": [{"fn": x["fn"], "msg": x["msg"]} for x in failed],
    }
    level = P.get("level", "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if violation else 0}
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for x in undec:
        print("NOTE: not proved on this run: " + x[:300])
    if violation:
        print(violation[:1500])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, tail))
        sys.exit(1)
    print("OK %s: %d/%d obligations discharged, %d functions under contract, search evaluated %d checks, %.0f s" % (prop, disch, oblig, len(fns), evals, time.time() - T0))
    sys.exit(0)


if __name__ == "__main__":
    main()
