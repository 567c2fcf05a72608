#!/usr/bin/env python3
"""Decide one property.  usage: check.py <ID>   (env: VERIF_SEED, VERIF_TIER)

Obligations come from the area crates under /verif/areas, which compile trin's current source files
in place.  See DESIGN.md.  Exit 0 = held, 1 = VIOLATION line printed, 2 = no answer.
"""
import json, os, re, subprocess, sys, time, hashlib, shutil

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()
BUDGET = 840.0          # the check must end before 900 s

sys.path.insert(0, os.path.join(V, "bin"))


def left():
    return BUDGET - (time.time() - T0)


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def run(cmd, cwd, timeout, log=None, envx=None):
    """Run with a hard timeout that takes the whole process group down."""
    t = time.time()
    e = env()
    if envx:
        e.update(envx)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    to = False
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    if log:
        os.makedirs(os.path.dirname(log), exist_ok=True)
        with open(log, "w") as f:
            f.write(out)
    return p.returncode, out, to, time.time() - t


KANI_FLAGS = ["-Z", "stubbing", "-Z", "unstable-options", "--no-memory-safety-checks",
              "--no-assertion-reach-checks"]

NOT_OBLIGATIONS = re.compile(
    r"unwinding assertion|model capacity|not currently supported|unsupported|"
    r"rust_dealloc must be|rust_realloc|undefined function|recursion unwinding|foreign function|"
    r"not supported by Kani|Kani does not", re.I)


class Harness:
    def __init__(self, area, name, kind="complete", bound="", timeout=150, iters=2000000):
        self.area, self.name, self.kind, self.bound, self.timeout = area, name, kind, bound, timeout
        self.iters = iters


def kani(area, hs, out, extra=(), timeout=None):
    """One cargo-kani run over harnesses `hs` of `area`. Returns {name: result}."""
    cwd = os.path.join(V, "areas", area)
    os.makedirs(out, exist_ok=True)
    js = os.path.join(out, area + ".json")
    if os.path.exists(js):
        os.remove(js)
    per = max(h.timeout for h in hs)
    cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(BUILD, "kani"), "--exact"]
    for h in hs:
        cmd += ["--harness", h.name]
    cmd += KANI_FLAGS + list(extra)
    if len(hs) > 1:
        cmd += ["-j", str(min(8, len(hs))), "--output-format", "terse"]
    budget = min(left() - 60, timeout or 700)
    cmd += ["--harness-timeout", "%ds" % int(max(20, min(per, budget - 40))), "--export-json", js]
    rc, txt, to, dt = run(cmd, cwd, budget, os.path.join(out, area + ".log"))
    res = {}
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except ValueError:
            data = None
    if data is None:
        comp = re.search(r"error(\[E\d+\])?:", txt)
        for h in hs:
            res[h.name] = {"state": "nocompile" if comp and not to else "noanswer", "checks": [],
                           "why": tail_errors(txt) if comp else ("timeout" if to else txt[-600:])}
        return res, txt, dt, " ".join(cmd)
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
    for r in data["verification_results"]["results"]:
        checks = r.get("checks", [])
        bad, soft = [], []
        for c in checks:
            st = c["status"].lower()
            if c.get("category") == "cover" or st in ("success", "satisfied", "unreachable", "covered"):
                continue
            (soft if (NOT_OBLIGATIONS.search(c["description"]) or st != "failure" or
                      c.get("category") in ("unwind", "unsupported_construct", "recursion")) else bad).append(c)
        cov = [c for c in checks if c.get("category") == "cover"]
        st = r["status"].lower()
        if bad:
            state = "fail"
        elif st == "success":
            state = "ok"
        else:
            state = "noanswer"
        res[r["harness_id"].split("::")[-1]] = {
            "state": state, "bad": bad, "soft": soft, "covers": cov, "checks": checks,
            "time": r.get("duration_ms", 0) / 1000.0, "stats": stats.get(r["harness_id"], {}),
            "why": "; ".join(sorted({c["description"] for c in soft}))[:300] or st}
    for h in hs:
        res.setdefault(h.name, {"state": "noanswer", "bad": [], "soft": [], "covers": [], "checks": [],
                                "time": 0, "stats": {}, "why": "no result (timeout)" if to else "no result"})
    return res, txt, dt, " ".join(cmd)


def tail_errors(txt):
    ls = txt.splitlines()
    out = []
    for i, l in enumerate(ls):
        if re.match(r"error(\[E\d+\])?:", l):
            out += ls[i:i + 6]
        if len(out) > 40:
            break
    return "\n".join(out)[:2000]


_native = {}


def native(area):
    """Build the replay binary of an area; path or None."""
    if area in _native:
        return _native[area]
    cwd = os.path.join(V, "areas", area)
    td = os.path.join(BUILD, "native", area)
    rc, txt, to, dt = run(["cargo", "build", "--offline", "--bin", "replay", "--target-dir", td], cwd,
                          min(left() - 10, 400), os.path.join(BUILD, "log", area + ".native.log"))
    p = os.path.join(td, "debug", "replay")
    if rc != 0 and "\nreal = " in open(os.path.join(cwd, "Cargo.toml")).read():
        # the source uses something the dependency contracts do not offer: build against the real crates
        td = os.path.join(BUILD, "native", area + "-real")
        rc, txt, to, dt = run(["cargo", "build", "--offline", "--bin", "replay", "--features", "real",
                               "--target-dir", td], cwd, min(left() - 10, 400),
                              os.path.join(BUILD, "log", area + ".real.log"))
        p = os.path.join(td, "debug", "replay")
    _native[area] = p if rc == 0 and os.path.exists(p) else None
    return _native[area]


def native_run(area, args, timeout):
    p = native(area)
    if not p:
        return None
    scratch = os.path.join(BUILD, "scratch", "%s-%d" % (area, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    rc, txt, to, dt = run([p] + args, scratch, timeout)
    shutil.rmtree(scratch, ignore_errors=True)
    m = re.search(r"^ND-FAIL (.*)$", txt, re.M)
    if m and "model capacity" not in m.group(1):
        vals = re.findall(r"^ND-VAL ?([0-9a-f]*)$", txt, re.M)
        return {"fail": m.group(1), "vals": vals, "out": txt[-3000:]}
    if rc is not None and rc < 0 and rc not in (-6, -9) and not to:
        return {"fail": "process ended by signal %d" % -rc, "vals": [], "out": txt[-2000:]}
    r = re.search(r"ND-RAND ran=(\d+)", txt)
    return {"fail": None, "ran": int(r.group(1)) if r else 0, "out": txt[-600:], "timeout": to}


def playback_vals(txt):
    """[(check description, [hex values])] from concrete-playback output."""
    out = []
    for m in re.finditer(r"/// Check for `(\w+)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                         txt, re.S):
        vals = []
        for v in re.finditer(r"^\s*vec!\[([^\]]*)\]", m.group(3), re.M):
            nums = [int(x) for x in v.group(1).replace("\n", " ").split(",") if x.strip()]
            vals.append("".join("%02x" % n for n in nums))
        out.append((m.group(1), m.group(2).strip(), vals))
    return out


def counterexample(area, h, bad, outdir, pid):
    """Replay file for failing harness `h`; returns (path, reproduced?)."""
    rep = os.path.join(V, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    path = os.path.join(rep, "%s-%s.json" % (pid, h.name))
    body = {"property": pid, "area": area, "harness": h.name,
            "failed_obligations": [{"description": c["description"], "function": c["function"],
                                    "location": c["location"]} for c in bad],
            "how": "python3 /verif/bin/replay.py " + path, "reproduced": False}
    txt = ""
    if left() > 80:
        res, txt, dt, cmd = kani(area, [h], os.path.join(outdir, "cex"),
                                 ["-Z", "concrete-playback", "--concrete-playback=print"],
                                 timeout=min(left() - 60, 200))
        body["verifier_cmd"] = cmd
        body["verifier_output_tail"] = "\n".join(
            l for l in txt.splitlines() if not l.startswith(("Unwinding", "Not unwinding", "aborting")))[-6000:]
        for kind, desc, vals in playback_vals(txt):
            if kind == "cover":
                continue
            f = os.path.join(rep, "%s-%s.vals" % (pid, h.name))
            with open(f, "w") as fh:
                fh.write("\n".join(vals) + "\n")
            r = native_run(area, [h.name, "vals", f], 60)
            if r and r.get("fail"):
                body.update(reproduced=True, values=vals, observed=r["fail"], source="verifier counterexample")
                break
            body["last_counterexample"] = vals
    if not body["reproduced"] and left() > 20:
        r = native_run(area, [h.name, "rand", str(SEED), "3000000", "25"], 40)
        if r and r.get("fail"):
            body.update(reproduced=True, values=r["vals"], observed=r["fail"],
                        source="seeded search over the same contract harness")
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path, body["reproduced"], body


def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def matches(kf, pid, hname, c):
    return (kf.get("property") == pid and kf.get("status", "open") == "open"
            and kf.get("harness") == hname and kf.get("description") == c["description"].strip('"')
            and kf.get("function", c["function"]) == c["function"])


def main():
    pid = sys.argv[1]
    table = json.load(open(os.path.join(V, "checks.json")))
    spec = table[pid]
    outdir = os.path.join(BUILD, "log", pid)
    os.makedirs(outdir, exist_ok=True)
    hs = [Harness(h.get("area", spec.get("area")), h["name"], h.get("kind", "complete"), h.get("bound", ""),
                  h.get("timeout", 300 if TIER == "thorough" else 150), h.get("iters", 2000000))
          for h in spec["harnesses"] if TIER == "thorough" or not h.get("thorough")]
    areas = {}
    for h in [h for h in hs if h.kind != "native"]:
        areas.setdefault(h.area, []).append(h)
    results, cmds, wall = {}, [], 0.0
    for a, l in areas.items():
        r, txt, dt, cmd = kani(a, l, outdir)
        results.update({(a, k): v for k, v in r.items()})
        cmds.append(cmd)
        wall += dt

    for h in hs:
        if h.kind == "native":
            results[(h.area, h.name)] = {"state": "native", "bad": [], "soft": [], "covers": [], "checks": [],
                                         "time": 0, "stats": {}, "why": "bounded native check"}
    violations, knowns, degraded, notes, noanswer = [], [], [], [], []
    kfs = known_findings()
    # failed obligations first; the bounded stand-ins only run while nothing has been refuted
    order = sorted(hs, key=lambda h: results[(h.area, h.name)]["state"] != "fail")
    for h in order:
        r = results[(h.area, h.name)]
        if r["state"] != "fail" and any(v[1] for v in violations):
            break
        if r["state"] == "fail":
            if any(v[1] for v in violations):
                continue
            bad = [c for c in r["bad"]]
            kn = [c for c in bad if any(matches(k, pid, h.name, c) for k in kfs)]
            for c in kn:
                knowns.append("%s at %s:%s" % (c["description"], c["location"].get("file"), c["location"].get("line")))
            bad = [c for c in bad if c not in kn]
            if bad:
                path, rep, body = counterexample(h.area, h, bad, outdir, pid)
                violations.append((path, rep, h, bad, body))
                if len(violations) >= 3 or left() < 150:
                    break
        elif r["state"] in ("noanswer", "nocompile", "native"):
            # Bounded stand-in: the same contract evaluated on the real code over seeded inputs.
            n = native_run(h.area, [h.name, "rand", str(SEED), str(h.iters), "20"], 120) if left() > 60 else None
            if n and n.get("fail") and any(k.get("property") == pid and k.get("status", "open") == "open"
                                           and k.get("harness") == h.name and k["description"] in n["fail"] for k in kfs):
                knowns.append(n["fail"])
                continue
            if n and n.get("fail"):
                rep = os.path.join(V, "evidence", "replay")
                os.makedirs(rep, exist_ok=True)
                path = os.path.join(rep, "%s-%s.json" % (pid, h.name))
                json.dump({"property": pid, "area": h.area, "harness": h.name, "values": n["vals"],
                           "observed": n["fail"], "reproduced": True, "verifier": r["why"],
                           "source": "seeded search over the same contract harness",
                           "how": "python3 /verif/bin/replay.py " + path}, open(path, "w"), indent=1)
                violations.append((path, True, h, [{"description": n["fail"], "function": h.name, "location": {}}], {}))
            elif n and n.get("ran", 0) > 0 and r["state"] == "native":
                r["ran"] = n["ran"]
            elif n and n.get("ran", 0) > 0:
                degraded.append({"harness": h.name, "why": r["why"], "inputs_tried": n["ran"]})
            else:
                noanswer.append({"harness": h.name, "why": r["why"]})
        else:
            un = [c for c in r["covers"] if c["status"].lower() not in ("satisfied", "covered")]
            ex = [c for c in un if c["description"].strip('"').startswith(pid + ".")]
            if ex:
                # An existential obligation of the property ("... can happen") is refuted.
                rep = os.path.join(V, "evidence", "replay")
                os.makedirs(rep, exist_ok=True)
                path = os.path.join(rep, "%s-%s.json" % (pid, h.name))
                json.dump({"property": pid, "area": h.area, "harness": h.name, "reproduced": False,
                           "failed_obligations": [{"description": c["description"], "status": c["status"],
                                                   "meaning": "no execution reaches this"} for c in ex],
                           "verifier_output": "see .build/log/%s" % pid}, open(path, "w"), indent=1)
                violations.append((path, False, h, ex, {}))
            elif un:
                notes.append("vacuity: cover not satisfied in %s: %s" % (h.name, un[0]["description"]))
                noanswer.append({"harness": h.name, "why": "cover unsatisfied: " + un[0]["description"]})

    verus = None
    if spec.get("verus") and not violations:
        sys.path.insert(0, os.path.join(V, "bin"))
        import verus_layer
        verus = verus_layer.run(spec["verus"], pid, outdir, left, run, V, REPO)
        if not verus["applicable"]:
            notes.append("unbounded obligations not generated: " + verus["why"][:300])
            print("note: " + notes[-1].replace("\n", " ")[:200])
        if verus.get("failed"):
            rep = os.path.join(V, "evidence", "replay")
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, "%s-verus.json" % pid)
            json.dump({"property": pid, "failed_obligations": verus["failed"], "verifier_output": verus["output"],
                       "reproduced": False}, open(path, "w"), indent=1)
            violations.append((path, False, None, [{"description": f} for f in verus["failed"]], {}))

    # ---- evidence
    own, disch, tot_all, solver = 0, 0, 0, 0.0
    per = []
    for h in hs:
        r = results[(h.area, h.name)]
        cs = [c for c in r["checks"] if c.get("category") != "cover"]
        named = [c for c in cs if re.match(r"^\"?%s\." % pid, c["description"])]
        ok = [c for c in cs if c["status"].lower() in ("success", "unreachable")]
        named += [c for c in r.get("covers", []) if c["description"].strip('"').startswith(pid + ".")]
        own += len(named)
        tot_all += len(cs)
        disch += len(ok)
        solver += float(r.get("stats", {}).get("runtime_decision_procedure_s") or 0)
        per.append({"harness": h.name, "area": h.area, "state": r["state"], "kind": h.kind, "bound": h.bound,
                    "obligations": len(cs), "discharged": len(ok), "named": [c["description"].strip('"') for c in named],
                    "covers_satisfied": sum(1 for c in r.get("covers", []) if c["status"].lower() in ("satisfied", "covered")),
                    "inputs_run": r.get("ran"),
                    "seconds": round(r.get("time", 0) or 0, 2), "vccs": r.get("stats", {}).get("vccs_generated")})
    cov = {
        "obligations": tot_all + (verus["obligations"] if verus else 0),
        "discharged": disch + (verus["discharged"] if verus else 0),
        "named_property_obligations": own,
        "functions_under_contract": spec.get("functions", []),
        "backend": "Kani 0.68 / CBMC 6.11 / CaDiCaL" + ("; Verus / Z3" if verus else ""),
        "solver_seconds": round(solver, 2),
        "checker_cmd": cmds[0] if cmds else "",
        "trusted_base": spec.get("trusted", []),
        "harnesses": per,
        "bounded": [p["harness"] + ": " + p["bound"] for p in per if p["kind"] != "complete"],
        "degraded_to_bounded_stand_in": degraded,
        "no_answer": noanswer,
        "repo_files": {f: sha(os.path.join(REPO, f)) for f in spec.get("files", [])},
    }
    if verus:
        cov["verus"] = {k: verus[k] for k in verus if k != "output"}
    level = spec["level"]
    if level == "proof" and (degraded or (verus and not verus["applicable"])):
        level = "model_checking"
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 2),
          "violations": [{"replay": v[0], "obligations": [c["description"] for c in v[3]]} for v in violations]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in knowns:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for d in degraded:
        print("note: %s answered by the bounded stand-in only (%s)" % (d["harness"], d["why"][:120].replace("\n", " ")))
    if violations:
        best = sorted(violations, key=lambda v: not v[1])[0]
        for v in violations:
            for c in v[3]:
                print("failed obligation: %s [%s]" % (c["description"], c.get("function", "")))
        print("VIOLATION property=%s replay=%s%s" % (pid, best[0], "" if best[1] else " no-failing-input-found"))
        return 1
    if noanswer:
        for n in noanswer:
            print("no answer from %s: %s" % (n["harness"], n["why"]))
        return 2
    if own == 0 and not degraded:
        print("no obligations generated")
        return 2
    print("held: %s  obligations=%d discharged=%d named=%d harnesses=%d %.1fs" % (
        pid, cov["obligations"], cov["discharged"], own, len(hs), time.time() - T0))
    return 0


def sha(p):
    try:
        return hashlib.sha256(open(p, "rb").read()).hexdigest()[:16]
    except OSError:
        return "missing"


if __name__ == "__main__":
    sys.exit(main())
