#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

1. goverus extracts the functions under contract from /repo, joins them with
   contracts/*.gvc and Verus discharges every obligation (function by function).
2. A second extraction puts an unprovable probe behind every precondition and
   loop (all of them must fail), so an accepted proof is never a vacuous one.
3. The functions the verifier does not reach are covered by the bounded
   stand-in in harness/, which also turns a failed obligation into a failing
   input of the real code where it finds one.
Exit 0: held; exit 1: violated (VIOLATION line). No other exit code is used.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil, threading, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
RACE = []
DEADLINE = [T0 + 600]
BUDGET = {"quick": 780, "thorough": 6 * 3600}
VERUS_FLAGS = ["--triggers-mode", "silent", "--multiple-errors", "20", "--num-threads", "2",
               "--output-json", "--time", "--", "--error-format=json"]


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod", GOPATH="/root/go")
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    return e


def run(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace") + "\ntimeout"


class Proof:
    def __init__(self):
        self.used = False
        self.failed = []      # [(obligation name, text, message)]
        self.obligations = []
        self.functions = []
        self.trusted = []
        self.inlined = []
        self.assumed = []
        self.solver_s = 0.0
        self.total_s = 0.0
        self.probes = 0
        self.verified_items = 0
        self.lemma_items = 0
        self.log = ""

    def join(self, o):
        for k in ("failed", "obligations", "functions", "assumed"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ("trusted", "inlined"):
            setattr(self, k, getattr(self, k) + [x for x in getattr(o, k) if x not in getattr(self, k)])
        for k in ("solver_s", "total_s", "probes", "verified_items", "lemma_items"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.used = self.used or o.used
        self.log += o.log


def module_text(conf):
    return [os.path.join(HERE, "contracts", p) for p in conf["preludes"]]


def goverus(work, conf, name, smoke, given="", lemmas=False):
    cdir = os.path.join(HERE, "contracts")
    gvc = ",".join(sorted(os.path.join(cdir, f) for f in os.listdir(cdir) if f.endswith(".gvc")))
    out, mp = os.path.join(work, name + ".rs"), os.path.join(work, name + ".json")
    cmd = [os.path.join(work, "goverus"), "-repo", REPO, "-contracts", gvc,
           "-prelude", ",".join(module_text(conf)), "-targets", ",".join(conf["targets"]),
           "-baseline", os.path.join(cdir, "baseline.json"), "-out", out, "-map", mp]
    if conf.get("init"):
        cmd += ["-init", ",".join(conf["init"])]
    if given:
        cmd += ["-given", given]
    if lemmas:
        cmd.append("-lemmas")
    if smoke:
        cmd.append("-smoke")
    rc, so, se = run(cmd, work, 240)
    m = {}
    if os.path.exists(mp):
        m = json.load(open(mp))
    return rc, m, out, so + se


def verus(work, path, timeout, more=()):
    timeout = min(timeout, DEADLINE[0] - time.time())  # the whole check has to end in time
    if timeout < 5:
        return 124, {}, [], "no time left"
    rc, so, se = run(["verus", path] + list(more) + VERUS_FLAGS, work, timeout)
    res = {}
    i = so.find("{")
    if i >= 0:
        try:
            res = json.loads(so[i:])
        except ValueError:
            pass
    diags = []
    for line in se.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    return rc, res, diags, se


def lines_of(d):
    ls = []
    def sp(x):
        for s in x.get("spans", []):
            ls.append((s["line_start"], s["line_end"], bool(s.get("is_primary")), s.get("label") or ""))
        for c in x.get("children", []):
            sp(c)
    sp(d)
    return ls


def prove(work, conf, pr, timeout):
    """the functions of one group against the lemmas (which lemmas() proves); fills pr"""
    pr.used = True
    rc, m, path, log = goverus(work, conf, conf["name"], False, "all")
    if rc != 0 or m.get("fatal"):
        pr.failed.append(("extraction", "the functions could be extracted from the current source", (m.get("fatal") or log)[-4000:]))
        return
    obs = m.get("obligations") or []
    pr.obligations += [o["name"] for o in obs]
    pr.trusted += [x for x in (m.get("trusted") or []) if x not in pr.trusted]
    pr.inlined += [x for x in (m.get("inlined") or []) if x not in pr.inlined]
    for f in m.get("functions") or []:
        if f.get("error"):
            pr.failed.append((f["key"] + ": extraction", "the function is inside the verified subset", f["error"]))
            pr.obligations.append(f["key"] + ": extraction")
        else:
            pr.functions.append({"function": f["key"], "at": f["pos"], "loops": f["loops"], "lines": f["lines"]})
    if not obs:
        pr.failed.append((conf["name"] + ": no obligations", "the proof is not vacuous", "no obligation was generated"))
        return
    failed, ok = attempt(work, conf, pr, m, obs, path, timeout, ())
    if failed:
        # every obligation is a query of its own: one the solver gave up on may be settled with
        # another seed and more resources; what fails both times is reported
        again, ok2 = attempt(work, conf, pr, m, obs, path, timeout, ("--rlimit", "40", "--smt-option", "smt.random_seed=11"))
        if ok2:
            failed = {}
        else:
            failed = {k: v for k, v in failed.items() if k in again} or again
    for nm, (text, msg) in failed.items():
        pr.failed.append((nm, text, msg))


def attempt(work, conf, pr, m, obs, path, timeout, more):
    rc, res, diags, se = verus(work, path, timeout, more)
    vr = res.get("verification-results", {})
    tm = res.get("times-ms", {})
    if not more:
        pr.verified_items += vr.get("verified", 0)
    pr.total_s += tm.get("total", 0) / 1000.0
    smt = tm.get("smt", {})
    pr.solver_s += (smt.get("total", 0) if isinstance(smt, dict) else 0) / 1000.0
    pr.log += se[-20000:]
    by_line = {o["line"]: o for o in obs}
    fns = [f for f in m["functions"] if f.get("verus")]
    failed = {}
    for d in diags:
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        hit = None
        for a, b, prim, lab in sorted(lines_of(d), key=lambda x: (x[1] - x[0])):
            for ln in range(a, min(b, a + 3) + 1):
                if ln in by_line:
                    hit = by_line[ln]
                    break
            if hit:
                break
        if hit is None:
            fn = None
            for a, b, prim, lab in lines_of(d):
                for f in fns:
                    if f["first_line"] <= a <= f["last_line"]:
                        fn = f
                        break
                if fn:
                    break
            nm = (fn["key"] if fn else conf["name"]) + ": " + msg[:80]
            text, pos = "", ""
        else:
            nm, text, pos = hit["name"], hit.get("text", ""), hit.get("pos", "")
        if nm not in failed:
            failed[nm] = (text, (msg + "\n" + (d.get("rendered") or ""))[:3000] + ("\nat " + pos if pos else ""))
    if not vr.get("success") and not failed:
        failed[conf["name"] + ": verifier"] = ("the verifier accepts every obligation", "rc=%s %s" % (rc, se[-3000:]))
    return failed, bool(vr.get("success")) and not failed


def plan(groups):
    """every prelude file is proved once per check: (group, files to prove in its context)"""
    jobs, seen = [], set()
    for g in groups:
        todo = [p for p in g["preludes"] if p not in seen]
        seen.update(todo)
        size, chunk = 0, []
        for p in todo:
            n = os.path.getsize(os.path.join(HERE, "contracts", p)) * (6 if p == "metaw.rs" else 1)
            if chunk and size + n > 90000:
                jobs.append((g, chunk))
                size, chunk = 0, []
            chunk.append(p)
            size += n
        if chunk:
            jobs.append((g, chunk))
    return jobs


def lemmas(work, conf, files, pr, timeout):
    """the lemmas of these prelude files, everything else in the context taken as given"""
    name = conf["name"] + "_" + files[0].split(".")[0]
    cdir = os.path.join(HERE, "contracts")
    rest = [os.path.join(cdir, p) for p in conf["preludes"] if p not in files]
    rc, m, path, log = goverus(work, conf, name, False, ",".join(rest), True)
    if rc != 0 or m.get("fatal"):
        pr.failed.append((name + ": lemmas", "the lemmas can be stated over the current types", (m.get("fatal") or log)[-4000:]))
        return
    for more in ((), ("--rlimit", "40", "--smt-option", "smt.random_seed=11")):
        rc, res, diags, se = verus(work, path, timeout, more)
        vr, tm = res.get("verification-results", {}), res.get("times-ms", {})
        pr.total_s += tm.get("total", 0) / 1000.0
        smt = tm.get("smt", {})
        pr.solver_s += (smt.get("total", 0) if isinstance(smt, dict) else 0) / 1000.0
        if vr.get("success"):
            pr.lemma_items += vr.get("verified", 0)
            return
    pr.failed.append((name + ": lemmas", "the lemmas of %s hold over the extracted types and constants" % ", ".join(files),
                      "\n".join((d.get("rendered") or d.get("message", ""))[:1500] for d in diags[:5]) or se[-3000:]))


def probes(work, conf, pr, timeout):
    rc, m, path, log = goverus(work, conf, conf["name"] + "_smoke", True, "all")
    if rc != 0 or m.get("fatal"):
        return
    pl = [o for o in m.get("obligations") or [] if (o.get("kind") or '').startswith("smoke")]
    rc, res, diags, se = verus(work, path, timeout)
    if not res:
        return
    bad, open_fns = set(), []
    for d in diags:
        for a, b, prim, lab in lines_of(d):
            for ln in range(a, min(b, a + 3) + 1):
                bad.add(ln)
            if "rlimit" in d.get("message", ""):
                open_fns += [f for f in m["functions"] if f.get("verus") and f["first_line"] <= a <= f["last_line"]]
    for o in pl:
        if o["line"] not in bad and any(f["first_line"] <= o["line"] <= f["last_line"] for f in open_fns):
            continue  # the solver gave up before it reached this probe: neither proved nor refuted
        pr.probes += 1
        if o["line"] not in bad:
            pr.failed.append((o["name"], "this point is reachable under the assumptions in force", "the probe was proved: the obligations behind it hold vacuously"))


def harness(work, prop, seed, tier, n, cap, tag):
    """bounded stand-in. Returns (result dict, list of failures)"""
    out = os.path.join(work, "h%s.json" % tag)
    cmd = [os.path.join(work, "harness"), "-prop", prop, "-seed", str(seed), "-tier", tier, "-out", out, "-cap", str(int(cap))]
    if n:
        cmd += ["-n", str(n)]
    rc, so, se = run(cmd, work, cap + 180)
    res = json.load(open(out)) if os.path.exists(out) else {}
    fails = list(res.get("failures") or [])
    if rc not in (0, 1) and not fails:
        # the process died: re-run the cases in flight alone to find the one to blame
        cur = []
        for w in range(64):
            p = "%s.cur%d" % (out, w)
            if os.path.exists(p):
                cur.append(int(open(p).read() or 0))
        blamed = None
        for k in cur:
            rc2, so2, se2 = run([os.path.join(work, "harness"), "-prop", prop, "-seed", str(seed), "-tier", tier,
                                 "-case", str(k), "-out", out + ".one"], work, 120)
            if rc2 != 0:
                blamed = {"property": prop, "kind": "crash", "seed": seed, "case": k,
                          "what": "the process running this case dies (exit %d): %s" % (rc2, (so2 + se2)[-3000:])}
                break
        fails.append(blamed or {"property": prop, "kind": "crash", "seed": seed, "case": cur[0] if cur else -1,
                                "what": "the process dies (exit %d): %s" % (rc, (so + se)[-3000:])})
    elif rc != 0 and not fails:
        fails.append({"property": prop, "kind": "crash", "seed": seed, "case": -1, "what": (so + se)[-3000:]})
    return res, fails


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = json.load(open(os.path.join(HERE, "contracts", "props.json")))["properties"][prop]
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    fails, pr, res = [], Proof(), {}
    try:
        build_err = ""
        rc, so, se = run(["go", "build", "-o", os.path.join(work, "goverus"), "."], os.path.join(HERE, "tools", "goverus"), 300)
        gv_ok = rc == 0
        if not gv_ok:
            pr.failed.append(("extractor", "the extractor builds", so + se))
        hdir = os.path.join(HERE, "harness")
        if REPO != "/repo":
            hdir = os.path.join(work, "hsrc")
            shutil.copytree(os.path.join(HERE, "harness"), hdir)
            gm = open(os.path.join(hdir, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(hdir, "go.mod"), "w").write(gm)
        rc = -1
        if conf.get("race"):  # concurrent properties: the race detector watches the stand-in
            rc, so, se = run(["go", "build", "-race", "-o", os.path.join(work, "harness"), "."], hdir, 400)
            if rc == 0:
                r0, so, se = run([os.path.join(work, "harness"), "-prop", "none"], work, 60)
                if r0 != 2:  # it answers "no such property"; anything else: the detector cannot run here
                    rc = -1
            RACE.append(rc == 0)
        if rc != 0:
            rc, so, se = run(["go", "build", "-o", os.path.join(work, "harness"), "."], hdir, 400)
        h_ok = rc == 0
        if not h_ok:
            pr.failed.append(("stand-in build", "the current source compiles with its public API", (so + se)[-4000:]))
        ths = []
        groups = conf.get("groups", [])
        vt = 420 if tier == "quick" else 1800
        if gv_ok:
            DEADLINE[0] = T0 + (600 if tier == "quick" else 4 * 3600)
            todo, lock = [(g, None) for g in groups] + plan(groups), threading.Lock()
            def proofs():
                try:
                    while True:
                        with lock:
                            if not todo:
                                return
                            g, files = todo.pop(0)
                        one = Proof()
                        if files:
                            lemmas(work, g, files, one, vt)
                        else:
                            prove(work, g, one, vt)
                            if not one.failed:
                                probes(work, g, one, vt)
                        with lock:
                            pr.join(one)
                except Exception:
                    pr.failed.append(("driver", "", traceback.format_exc()))
            for _ in range(min(4, len(todo))):
                t = threading.Thread(target=proofs)
                t.start()
                ths.append(t)
        if h_ok:
            cap = 200 if tier == "quick" else 2400
            res, fails = harness(work, prop, seed, tier, 0, cap, "")
        for t in ths:
            t.join()
        if pr.failed and not fails and h_ok:
            # look harder for an input that shows the failed obligation on the real code
            n = 4 * (res.get("planned") or 1000)
            left = BUDGET[tier] - (time.time() - T0) - 60
            if left > 60:
                r2, fails = harness(work, prop, seed + 1000, tier, n, min(left - 180 if left > 400 else left / 2, 240), "x")
                for k in ("evaluations", "distinct_nontrivial", "cases"):
                    if k in r2 and k in res:
                        res[k] += r2[k]
    except Exception:
        pr.failed.append(("driver", "the check runs", traceback.format_exc()))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop)
    shown = set()
    def unlisted(text):
        for rx, what in known:
            if rx.search(text):
                if what not in shown:
                    shown.add(what)
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                return False
        return True
    fails = [f for f in fails if unlisted("\n".join(str(f.get(k, "")) for k in ("what", "grammar", "input")))]
    pfail = [f for f in pr.failed if unlisted(f[0])]

    viol = bool(fails or pfail)
    failed_names = {f[0] for f in pr.failed}
    nobs = len(pr.obligations)
    ndis = len([o for o in pr.obligations if o not in failed_names])
    trusted = ["goverus (extraction and condition generation, /verif/tools/goverus)", "Verus 0.2026.09.13 with its bundled Z3"]
    trusted += ["assumed contract: " + t for t in pr.trusted]
    checker = "check.py %s -> goverus; verus %s" % (prop, " ".join(VERUS_FLAGS))
    cov = {"explanation": (("proved: " + conf["proved"] + " ") if conf.get("proved") else "") + (("bounded stand-in: " + conf["bounded"]) if conf.get("bounded") else "") or conf["explanation"],
           "proved_part": conf.get("proved", ""), "bounded_part": conf.get("bounded", ""),
           "obligations": nobs, "discharged": ndis, "checker_cmd": checker, "trusted_base": trusted,
           "functions_under_contract": pr.functions, "functions_inlined": pr.inlined,
           "vacuity_probes_failed_as_required": pr.probes, "lemma_queries_verified": pr.lemma_items,
           "solver_seconds": round(pr.solver_s, 2), "verifier_seconds": round(pr.total_s, 2),
           "back_end": "Verus/Z3",
           "evaluations": res.get("evaluations", 0), "distinct_nontrivial": res.get("distinct_nontrivial", 0),
           "rule": res.get("rule", ""), "samples": (res.get("samples") or [])[:6],
           "race_detector": bool(RACE and RACE[0]),
           "cases": res.get("cases", 0), "skipped": res.get("skipped") or {}}
    if not groups_of(conf):
        for k in ("obligations", "discharged", "checker_cmd", "functions_under_contract", "functions_inlined", "lemma_queries_verified",
                  "vacuity_probes_failed_as_required", "solver_seconds", "verifier_seconds", "back_end"):
            cov.pop(k, None)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf["level"], "coverage": cov,
          "assumptions": conf.get("assumptions", []) + ["assumed contract: " + t for t in pr.trusted],
          "wall_s": round(time.time() - T0, 2), "violations": (len(fails) + (len(pfail) if not fails else 0))}
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged (%d functions, %d vacuity probes), bounded stand-in: %d evaluations, %d distinct non-trivial; %.0f s" % (
        prop, ndis, nobs, len(pr.functions), pr.probes, cov["evaluations"], cov["distinct_nontrivial"], time.time() - T0))
    if not viol:
        return 0
    rp = os.path.join(rp_dir, prop + ".txt")
    with open(rp, "w") as f:
        f.write("property %s violated on %s (tier %s, seed %d)\n\n" % (prop, REPO, tier, seed))
        for nm, text, msg in pfail:
            f.write("FAILED OBLIGATION %s\n  %s\n  verifier: %s\n\n" % (nm, text, msg))
        for x in fails:
            f.write("FAILING INPUT (%s) seed=%s case=%s\n  %s\n  grammar:\n%s\n  input: %s\n  replay: cd /verif/harness && GOWORK=off go run . -prop %s -seed %s -tier %s -case %s\n\n" % (
                x.get("kind"), x.get("seed"), x.get("case"), x.get("what"), x.get("grammar", ""), x.get("input", ""), prop, x.get("seed"), tier, x.get("case")))
    for nm, text, msg in pfail:
        print("failed obligation: %s  %s" % (nm, text))
        if os.environ.get("VERIF_DEBUG"):
            print(msg)
    for x in fails[:3]:
        print("failing input: %s | grammar: %s | input: %s" % (str(x.get("what"))[:600], str(x.get("grammar", ""))[:400], x.get("input", "")))
    print("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if fails else " no-failing-input-found"))
    return 1


def groups_of(conf):
    return conf.get("groups", [])


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        rpd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rpd, exist_ok=True)
        rp = os.path.join(rpd, p + ".txt")
        open(rp, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (p, rp))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
