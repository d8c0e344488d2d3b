#!/usr/bin/env python3
"""check.py PROPERTY  -  decides one property for the current tree of /repo (see DESIGN.md).

1. overlay extracts the functions under contract from /repo/src, Verus discharges their obligations;
2. a function that cannot be brought within the verifier's reach as it is now written (does not compile in Verus'
   subset, resource limit, lost anchor) is set aside, reported as bounded, never as proved;
3. an obligation that fails is a violation of the property; a failing input is searched with the harness;
4. the harness also runs when every obligation is discharged: it exercises the real crate against an independent
   reference, as a bounded test of the assumed contracts."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "checks"))
from props import PROPS  # noqa: E402

REPO = os.environ.get("VX_REPO", "/repo")
T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CFG = PROPS[PID]
WORK = os.path.join(HERE, "work", PID)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUST_BACKTRACE="0", CARGO_TERM_COLOR="never")


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd=None, timeout=300, env=None, **kw):
    """(exit code or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True, env=dict(ENV, **(env or {})), **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


def cargo(d, args):
    return run(["cargo", "build", "--offline"] + args, cwd=os.path.join(HERE, d), timeout=400)


# ------------------------------------------------------------------------------------------------ proof

# functions of the standard library that the verifier accepts, with a contract that does not tie the result to the text
WEAK = r"\.(as_bytes|bytes|chars|char_indices)\("


class Unit:
    def __init__(self, name, fns):
        self.name, self.fns = name, fns
        self.external = {}      # function -> why
        self.failed = {}        # function -> messages
        self.other = []         # failures in the template's own lemmas
        self.undecided = None   # reason for the whole unit
        self.map = None
        self.result = None
        self.smt_ms = 0
        self.details = {}
        self.canary = None
        self.cmd = ""
        self.output = ""

    def overlay(self, out, extra=()):
        a = [os.path.join(HERE, "overlay/target/debug/overlay"), os.path.join(REPO, "src"),
             os.path.join(HERE, "contracts", self.name + ".tpl"), out + ".rs", out + ".json"]
        for f in self.external:
            a += ["--external", f]
        for f in extra:
            a += ["--canary", f]
        rc, _, e = run(a, timeout=60)
        if rc != 0:
            return None, e.strip()
        return json.load(open(out + ".json")), ""

    def verus(self, out, more=()):
        cmd = ["verus", out + ".rs", "--output-json", "--time-expanded", "--multiple-errors", "10", "--error-format=json", "--num-threads", "4"] + list(more)
        self.cmd = " ".join(cmd[:1] + ["<overlay of %s>" % self.name] + cmd[2:])
        rc, o, e = run(cmd, cwd=WORK, timeout=max(30, min(300, 330 - (time.time() - T0))))
        if rc is None:
            return None, [], "timeout"
        try:
            res = json.loads(o[o.index("{"):])
        except ValueError:
            res = None
        msgs = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level", "").startswith("error"):
                    msgs.append(d)
        return res, msgs, e

    def owner(self, line):
        for f in self.map["fns"]:
            if f["lines"][0] - 1 <= line <= f["lines"][1] and not f["sigonly"]:
                return f["path"]
        # one of the template's own lemmas: the nearest fn above
        ls = self.text
        for k in range(min(line, len(ls)) - 1, -1, -1):
            m = re.search(r"\bfn\s+(\w+)", ls[k])
            if m:
                return "lemma:" + m.group(1)
        return None

    def lines_of(self, m):
        sp = sorted(m.get("spans", []), key=lambda s: not s["is_primary"])
        ls = [s["line_start"] for s in sp if s["file_name"].endswith(self.name + ".rs")]
        return ls

    def body_owner(self, m):
        """the function being verified: the one whose body carries a span (a failed precondition also points at the
        callee's contract, a failed postcondition of a trait method at the trait)"""
        own = []
        for l in self.lines_of(m):
            o = self.owner(l)
            if o and o not in own:
                own.append(o)
        return own

    def go(self):
        out = os.path.join(WORK, self.name)
        rl = []
        for attempt in range(14):
            if attempt and time.time() - T0 > 330:
                self.undecided = "time limit"
                return
            self.map, err = self.overlay(out)
            if self.map is None:
                self.undecided = "extraction: " + err
                return
            self.text = open(out + ".rs").read().split("\n")
            for p in self.map["missing"]:
                self.external.setdefault(p, "anchor not found in the source")
            redo = False
            for f in self.map["fns"]:
                if f["problems"] and not f["external"] and f["path"] not in self.external:
                    self.external[f["path"]] = "; ".join(f["problems"])
                    redo = True
            if redo:
                continue
            res, msgs, raw = self.verus(out, rl)
            if raw == "timeout":
                self.undecided = "verifier time limit"
                return
            v = (res or {}).get("verification-results", {})
            ok = res is not None and v.get("success")
            if ok:
                self.finish(res)
                return
            ran = res is not None and "verified" in v and not v.get("encountered-vir-error") and (v.get("verified", 0) + v.get("errors", 0) > 0)
            msgs = [m for m in msgs if not m["message"].startswith("aborting due to")]
            if not ran:
                # does not compile in the verifier's subset: set the functions concerned aside
                new = set()
                for m in msgs:
                    own = [o for o in self.body_owner(m) if not o.startswith("lemma:")]
                    if own and own[0] not in self.external:
                        new.add((own[0], m["message"]))
                if not new:
                    self.undecided = "the verifier does not accept the extracted text: " + (msgs[0]["message"] if msgs else raw[-300:])
                    self.output = "\n".join(m.get("rendered") or m["message"] for m in msgs[:5])
                    return
                for f, w in new:
                    self.external[f] = "outside the verifier's subset: " + w
                continue
            # obligations failed
            limit = set()
            failed = {}
            for m in msgs:
                own = self.body_owner(m)
                exe = [o for o in own if not o.startswith("lemma:")]
                o = (exe or own or [None])[0]
                text = m.get("rendered") or m["message"]
                if "esource limit" in m["message"] or "rlimit" in m["message"]:
                    limit.add(o)
                    continue
                failed.setdefault(o, []).append(text)
            if limit and not rl:
                rl = ["--rlimit", "60"]
                continue
            redo = False
            for o in limit:
                if o and not o.startswith("lemma:") and o not in self.external:
                    self.external[o] = "resource limit"
                    redo = True
                elif o is None or o.startswith("lemma:"):
                    self.undecided = "resource limit"
            if redo:
                continue
            helpers = set(self.map["uncontracted"])
            names = {h.rsplit("::", 1)[-1] for h in helpers}
            for o, t in list(failed.items()):
                if o is None:
                    continue
                if o.startswith("regex:"):
                    # the proof about the pattern is a script for one way of writing it: not redone is not refuted
                    self.external[o] = "the lemma about the pattern is not redone: " + t[0].strip().split("\n")[0]
                    redo = True
                    continue
                if o in helpers:
                    # a helper that is not under contract: its own safety is not claimed by any property
                    del failed[o]
                    continue
                fn = [f for f in self.map["fns"] if f["path"] == o and not f["sigonly"]]
                body = "\n".join(self.text[fn[0]["lines"][0] - 1:fn[0]["lines"][1]]) if fn else ""
                used = [n for n in names if re.search(r"\b%s\b" % re.escape(n), body)]
                if fn and fn[0].get("loose"):
                    # what is annotated does not fit the shape of the text: not redone is not refuted
                    self.external[o] = "the proof is not redone: " + "; ".join(fn[0]["loose"])
                    redo = True
                elif re.search(WEAK, body):
                    # what is assumed of these says too little about text to decide anything
                    self.external[o] = "calls a function of which too little is assumed: " + re.search(WEAK, body).group(1)
                    redo = True
                elif fn and self.map["missing"] and fn[0].get("inlined"):
                    # what stands in place of a function under contract that is gone is known by its text alone
                    self.external[o] = "the proof is not redone: calls what may stand in place of " + ", ".join(self.map["missing"])
                    redo = True
                elif used:
                    self.external[o] = "calls functions that are not under contract: " + ", ".join(sorted(used))
                    redo = True
            if redo:
                continue
            if None in failed:
                self.undecided = "failure that cannot be attributed: " + failed.pop(None)[0][:300]
            for o, t in failed.items():
                if o.startswith("lemma:"):
                    self.other.append((o[6:], t))
                else:
                    self.failed[o] = t
            self.output = "\n".join(x for t in failed.values() for x in t)
            self.finish(res)
            return
        self.undecided = self.undecided or "no stable extraction"

    def finish(self, res):
        self.result = res["verification-results"]
        smt = res.get("times-ms", {}).get("smt", {})
        self.smt_ms = smt.get("smt-run", 0)
        for mod in smt.get("smt-run-module-times", []):
            for f in mod.get("function-breakdown", []):
                self.details[f["function"]] = f
        self.backend = "z3 (bundled with verus %s)" % res.get("verus", {}).get("version", "?")

    def run_canaries(self):
        if time.time() - T0 > 330:
            self.canary = dict(problem="not run: time limit")
            return
        fns = [f["path"] for f in self.map["fns"] if not f["external"] and not f["sigonly"] and f["path"] in self.fns and not f["path"].startswith("regex:")]
        fns = list(dict.fromkeys(fns))
        if not fns:
            return
        out = os.path.join(WORK, "canary_" + self.name)
        m, err = self.overlay(out, fns)
        if m is None:
            self.canary = dict(problem=err)
            return
        res, msgs, raw = self.verus(out)
        v = (res or {}).get("verification-results", {})
        if v.get("verified", 0) + v.get("errors", 0) == 0 or v.get("encountered-vir-error"):
            self.canary = dict(problem="not run: " + (msgs[0]["message"] if msgs else raw[-200:]))
            return
        seen = set()
        for d in msgs:
            for s in d.get("spans", []):
                for t in s.get("text", []):
                    for k in re.findall(r"vx_canary\((\d+),", t["text"]):
                        seen.add(int(k))
            # an error without the clause in its excerpt
        vac = [f for k, f in enumerate(fns) if k not in seen]
        self.canary = dict(checked=len(fns), refuted=len(fns) - len(vac), vacuous=vac)


def prove(built):
    units = []
    if not CFG.get("units"):
        return units
    for n, fns in CFG["units"].items():
        u = Unit(n, fns)
        units.append(u)
    if built is not None:
        for u in units:
            u.undecided = built
        return units

    def one(u):
        try:
            u.go()
            if u.undecided is None and not u.failed and not u.other:
                u.run_canaries()
        except Exception as e:  # noqa: BLE001  (a fault of the machinery never becomes an alarm)
            u.undecided = "machinery: %r" % e
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, units))
    return units


# ------------------------------------------------------------------------------------------------ harness

def harness(tier, seed, tag, timeout):
    """one run of the harness; it stops trying cases by itself some time before the limit"""
    out = os.path.join(WORK, "h_%s.json" % tag)
    for f in (out, out + ".cur"):
        if os.path.exists(f):
            os.remove(f)
    binp = os.path.join(HERE, "harness/target/debug/harness")
    rc, o, e = run(["bash", "-c", "ulimit -v 20000000; exec \"$@\"", "h", binp, PID, tier, str(seed), out], cwd=WORK, timeout=timeout,
                   env=dict(HARNESS_BUDGET=str(max(5, int(timeout) - 40))))
    r = dict(rc=rc, tier=tier, seed=seed, violation=None, evaluations=0, distinct_nontrivial=0, samples=[], rule="", exhaustive_parts=[])
    if os.path.exists(out):
        try:
            r.update(json.load(open(out)))
        except ValueError:
            pass
    if rc == 0 or (rc == 1 and r["violation"]):
        return r
    cur = None
    if os.path.exists(out + ".cur"):
        b = open(out + ".cur", "rb").read()
        if len(b) >= 8:
            n = int.from_bytes(b[:8], "little")
            cur = b[8:8 + n].decode("utf8", "replace")
    if rc is None and time.time() - T0 > 0 and cur is None:
        r["problem"] = "time limit"
        return r
    if rc is None:
        # ended by this program's own time limit while cases were still being tried
        r["problem"] = "time limit"
        return r
    if cur is not None:
        what = "does not return within 20 s" if rc == 99 else "ends the process (exit %s): %s" % (rc, e.strip()[-300:])
        r["violation"] = dict(input=cur, observed=what)
    else:
        r["problem"] = "harness ended with %s: %s" % (rc, e.strip()[-300:])
    return r


# ------------------------------------------------------------------------------------------------ main

def main():
    if os.path.isdir(WORK):
        shutil.rmtree(WORK)
    os.makedirs(WORK)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        fo = ex.submit(cargo, "overlay", [])
        fh = ex.submit(cargo, "harness", [])
        rc, _, e = fo.result()
        units = prove(None if rc == 0 else "the extraction tool does not build: " + e[-300:])
        rc, _, e = fh.result()
    hbuilt = rc == 0
    hproblem = None if hbuilt else "the harness does not build against this tree: " + e[-600:]

    failed = [(u, f, t) for u in units for f, t in u.failed.items() if f in u.fns]
    lem = [(u, n, t) for u in units for n, t in u.other if n in CFG.get("lemmas", {}).get(u.name, [])]
    # a lemma over the contracts can only fail together with a changed type or definition
    failed += [(u, "lemma " + n, t) for u, n, t in lem]
    others = [(u.name, f) for u in units for f in u.failed if f not in u.fns]
    bounded = []
    for u in units:
        if u.undecided:
            bounded.append(dict(unit=u.name, functions=u.fns, reason=u.undecided))
        for f, w in u.external.items():
            if f in u.fns:
                bounded.append(dict(unit=u.name, functions=[f], reason=w))
        for o in (u.map or {}).get("overrides", []):
            if any(f.rsplit("::", 1)[0] == o.rsplit("::", 1)[0] for f in u.fns):
                bounded.append(dict(unit=u.name, functions=[o], reason="stands in place of what the trait provides, without a contract"))
        for o, of in (u.map or {}).get("replaced", []):
            if any(f.endswith("::" + of) for f in u.fns):
                bounded.append(dict(unit=u.name, functions=[o], reason="replaces %s for its type, without a contract" % of))
        for o in (u.map or {}).get("by_hand", []):
            bounded.append(dict(unit=u.name, functions=[o], reason="written by hand in place of what is derived or what a trait gives, without a contract"))
        if u.canary and u.canary.get("vacuous"):
            bounded.append(dict(unit=u.name, functions=u.canary["vacuous"], reason="reachability check not refuted"))
    # functions that fail without belonging to this property are assumed here and reported by their own check

    runs = []
    if hbuilt:
        runs.append(harness(TIER, SEED, "main", 500 if TIER == "thorough" else 240))
        # where the proof does not decide, search harder
        if not runs[-1]["violation"] and (failed or bounded) and not CFG.get("no_extra"):
            for k in range(1, 5):
                left = 520 - (time.time() - T0)
                if left < 60 or (not failed and k > 1 and time.time() - T0 > 60):
                    break
                runs.append(harness("thorough", SEED + 1000 * k, "x%d" % k, min(left, 100)))
                if runs[-1]["violation"]:
                    break
    hv = next((r for r in runs if r["violation"]), None)

    # evidence
    obligations = sum(u.result["verified"] + u.result["errors"] for u in units if u.result)
    discharged = sum(u.result["verified"] for u in units if u.result)
    fl = []
    for u in units:
        if not u.map:
            continue
        for f in u.map["fns"]:
            if f["path"] in u.fns and not f["sigonly"]:
                st = "bounded: " + u.external[f["path"]] if f["path"] in u.external else "undecided" if u.undecided else "FAILED" if f["path"] in u.failed else "proved"
                fl.append(dict(function=f["found"], file=os.path.relpath(f["file"], REPO), lines=f["src_lines"], unit=u.name, status=st))
    proved = sum(1 for f in fl if f["status"] == "proved")
    trusted = []
    for u in units:
        if not getattr(u, "text", None):
            continue
        # what is only there for code that may call it counts when the extracted text does
        code = "\n".join("\n".join(u.text[f["lines"][0] - 1:f["lines"][1]]) for f in u.map["fns"]) if u.map else ""
        spare = False
        for k, l in enumerate(u.text):
            if "vx-spare" in l:
                spare = "begin" in l
            if spare:
                n = re.search(r"fn (\w+)", u.text[k + 1] if "external_body" in l and k + 1 < len(u.text) else l) or re.search(r"\[[^\]]*?(\w+)(?:::<\w>)?\]\(", l)
                if n and not re.search(r"\b%s\b" % re.escape(n.group(1)), code):
                    continue
            if re.search(r"external_body|assume_specification|\baxiom\b|\badmit\(|\bassume\(|exec_allows_no_decreases|uninterp", l):
                t = l.strip()
                if "external_body" in t and k + 1 < len(u.text):
                    t += " " + u.text[k + 1].strip()
                trusted.append("%s: %s" % (u.name, t[:160]))
    ev = dict(
        property=PID, tier=TIER, seed=SEED, level=CFG.get("level", "proof"),
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd="; ".join(sorted({u.cmd for u in units if u.cmd})) or "none",
            trusted_base=trusted,
            functions_under_contract=fl, functions_proved=proved, bounded_stand_ins=bounded,
            failed_obligations=[dict(unit=u.name, function=f, first=t[0][:600]) for u, f, t in failed],
            failures_outside_this_property=others,
            lemmas=CFG.get("lemmas", {}),
            solver=sorted({u.backend for u in units if u.result}), solver_ms={u.name: u.smt_ms for u in units},
            reachability={u.name: u.canary for u in units if u.canary},
            extraction=[dict(unit=u.name, rewritten=u.map["drops"], renamed=u.map.get("renamed", []), helpers_without_contract=u.map["uncontracted"]) for u in units if u.map],
            evaluations=sum(r["evaluations"] for r in runs), distinct_nontrivial=sum(r["distinct_nontrivial"] for r in runs),
            rule=runs[0]["rule"] if runs else "", samples=(runs[0]["samples"] if runs else [])[:6],
            bounded_enumerated=runs[0]["exhaustive_parts"] if runs else [],
            harness_problems=[r["problem"] for r in runs if r.get("problem")] + ([hproblem] if hproblem else []),
            explanation="obligations are counted per function or lemma as Verus reports them for the units named; evaluations are inputs the harness ran on the real crate against its own reference (bounded, not part of the proof)",
        ),
        assumptions=CFG.get("assumed", []) + ["Verus, Z3 and rustc are sound; the overlay's rewriting listed under extraction keeps the meaning",
                                              "call stack and memory are unbounded (C22)"],
        wall_s=0, violations=0)

    rc = 0
    rp = os.path.join(HERE, "replay", PID + ".json")
    if failed or hv:
        rc = 1
        rep = dict(property=PID, failed_obligations=[dict(unit=u.name, function=f, verifier_output=t) for u, f, t in failed],
                   failing_input=(hv or {}).get("violation"), how=("harness %s %s %s OUT.json" % (PID, hv["tier"], hv["seed"])) if hv else None)
        json.dump(rep, open(rp, "w"), indent=1, ensure_ascii=False)
        ev["violations"] = 1
    ev["wall_s"] = round(time.time() - T0, 2)
    json.dump(ev, open(os.path.join(HERE, "evidence", PID + ".json"), "w"), indent=1, ensure_ascii=False)

    log("%s: %d obligations, %d discharged, %d functions of this property proved, %d bounded, %d failed; %d harness cases; %.1f s" % (
        PID, obligations, discharged, proved, sum(len(b["functions"]) for b in bounded), len(failed), ev["coverage"]["evaluations"], ev["wall_s"]))
    for b in bounded:
        log("  bounded:", ", ".join(b["functions"])[:200], "-", b["reason"][:200])
    for u, f, t in failed:
        log("  failed:", f, "-", t[0].strip().split("\n")[0][:200])
    if hproblem:
        log("  " + hproblem[-400:])
    if rc:
        v = (hv or {}).get("violation")
        if v:
            log("  failing input:", str(v["input"])[:400])
            log("  observed:", str(v["observed"])[:400])
        log("VIOLATION property=%s replay=%s%s" % (PID, rp, "" if v else " no-failing-input-found"))
    return rc


try:
    code = main()
except Exception as e:  # noqa: BLE001
    import traceback
    traceback.print_exc()
    code = 2
sys.exit(code)
