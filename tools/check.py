#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property: every obligation is generated from /repo's current source (the harness crate has a
path dependency on it) and discharged by Kani/CBMC (SAT or SMT back end). Exit 0: nothing refuted.
Exit 1 with a VIOLATION line: an obligation is refuted by the verifier, or an obligation the verifier left
undecided is refuted by an input found by the bounded fall-back search. Exit 2: the check itself broke.
"""
import json, os, re, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import props

T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
DEADLINE = T0 + (840 if TIER == "quick" else 4 * 3600)
WORK = os.path.join(HARN, "target", "check", PROP)
os.makedirs(WORK, exist_ok=True)
os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", TMPDIR=WORK)
P = props.PROPS[PROP]


def left():
    return DEADLINE - time.time()


def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, cwd=HARN, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    stop = threading.Event()
    threading.Thread(target=reaper, args=(p.pid, stop), daemon=True).start()
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out
    finally:
        stop.set()
        orphans(p.pid)


def orphans(sid):
    """A solver outlives the verifier process that was stopped at its time limit: end it."""
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            f = open("/proc/%s/stat" % d).read()
            comm, rest = f[f.index("(") + 1:f.rindex(")")], f[f.rindex(")") + 2:].split()
            if int(rest[3]) == sid and comm in ("z3", "cvc5", "cbmc", "kissat", "bitwuzla") and int(rest[1]) == 1:
                os.kill(int(d), signal.SIGKILL)
        except (OSError, ValueError):
            pass


def reaper(sid, stop):
    while not stop.wait(5):
        orphans(sid)


def die(msg, out=""):
    print("CHECK ERROR property=%s %s" % (PROP, msg))
    if out:
        out = "\n".join(p for p in out.split("\n\n") if not p.startswith("warning: use of an unstable"))
        print(out[-6000:])
    sys.exit(2)


def feature_args(features):
    return ["--features", ",".join(features)] if features else []


def kani(prefixes, features, hto, tag, exact=False, extra=(), timeout=None):
    jf = os.path.join(WORK, tag + ".json")
    if os.path.exists(jf):
        os.unlink(jf)
    cmd = ["cargo", "kani", "--lib", "--target-dir", os.path.join(HARN, "target", "-".join(["vk"] + features))]
    cmd += feature_args(features) + ["-Z", "unstable-options", "-Z", "stubbing"]
    for h in prefixes:
        cmd += ["--harness", h]
    if exact:
        cmd += ["--exact"]
    cmd += list(extra)
    if "--concrete-playback=print" not in extra:
        cmd += ["-j", "8", "--output-format", "terse", "--export-json", jf]
    cmd += ["--harness-timeout", "%ds" % hto]
    rc, out = run(cmd, timeout or left() - 60)
    data = None
    if os.path.exists(jf):
        try:
            data = json.load(open(jf))
        except ValueError:
            data = None
    return rc, out, data, " ".join(cmd)


NATIVE = {}


def native(features):
    """Builds the native replay binary against the real crate (once per feature set)."""
    key = ",".join(features)
    if key not in NATIVE:
        td = os.path.join(HARN, "target", "native" + ("-" + key if key else ""))
        rc, out = run(["cargo", "build", "--release", "--offline", "--bin", "replay", "--target-dir", td]
                      + feature_args(features), 400)
        if rc != 0:
            die("the replay binary does not build", out)
        NATIVE[key] = os.path.join(td, "release", "replay")
    return NATIVE[key]


def playback(h, features, hto):
    """Asks the verifier for its counterexample; returns the value bytes in program order (hex) per check."""
    rc, out, _, _ = kani([h], features, hto * 2, "pb", exact=True, extra=["-Z", "concrete-playback",
                         "--concrete-playback=print"], timeout=min(left() - 60, hto * 2 + 60))
    vals = []
    for m in re.finditer(r"/// Test generated for harness `.*?`\s*\n(.*?)let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];\s*\n\s*kani::concrete_playback_run",
                         out, re.S):
        head, body = m.group(1), m.group(2)
        desc = re.search(r"Check for `(.*?)`: \"(.*?)\"", head)
        kind = desc.group(1) if desc else "?"
        bs = []
        for line in body.splitlines():
            v = re.match(r"\s*vec!\[([0-9, ]*)\]", line)
            if v:
                bs += [int(x) for x in v.group(1).split(",") if x.strip()]
        if kind != "cover":
            vals.append((kind, desc.group(2) if desc else "", "".join("%02x" % b for b in bs)))
    return vals, out


def replay_values(h, features, hexs, path):
    with open(path, "w") as f:
        f.write(hexs + "\n")
    rc, out = run([native(features), "values", h, path], 60)
    return rc, out.strip()


def fuzz(h, features, ms, path):
    rc, out = run([native(features), "random", h, str(SEED), str(ms), path], ms / 1000 + 30)
    return rc, out.strip()


def main():
    units = props.units(PROP, TIER)  # list of dict(prefixes, features, timeout, bounded)
    results = {}  # harness -> record
    cmds = []
    for n, u in enumerate(units):
        hto = u["timeout"]
        rc, out, data, cmd = kani(u["prefixes"], u["features"], hto, "u%d" % n, exact=u.get("exact", False))
        cmds.append(re.sub(r"--harness (\S+) (?=--harness)", "", cmd) if len(cmd) > 1500 else cmd)
        if data is None:
            if rc is None:
                # out of time: nothing decided for this unit
                for h in u["expect"]:
                    results[h] = dict(status="undecided", why="the verifier ran out of time", unit=u, checks=[])
                continue
            die("the verifier gave no result (does the crate build?)", out)
        stats = {c["harness_id"]: c for c in data.get("cbmc", [])}
        for r in data["verification_results"]["results"]:
            h = r["harness_id"]
            fails = [c for c in r["checks"] if c["status"] == "Failure"]
            undet = [c for c in r["checks"] if c["status"] in ("Undetermined", "SolverError")]
            unwind = [c for c in fails if "unwinding" in c["description"] or ".unwind." in str(c.get("id", ""))]
            unsup = [c for c in fails if c["category"] == "unsupported_construct" or "is not currently supported" in c["description"]]
            genuine = [c for c in fails if c not in unwind and c not in unsup]
            unsat = [c for c in r["checks"] if c["status"] in ("Unsatisfiable",)
                     and c.get("category") == "cover"] + \
                    [c for c in r["checks"] if c.get("category") == "cover" and c["status"] == "Unreachable"]
            ncov = [c for c in r["checks"] if c.get("category") == "cover"]
            s = stats.get(h, {})
            rec = dict(unit=u, checks=r["checks"], ms=r["duration_ms"],
                       solver=(s.get("configuration") or {}).get("solver"),
                       vcc=(s.get("cbmc_stats") or {}).get("vccs_generated"),
                       solver_s=(s.get("cbmc_stats") or {}).get("runtime_decision_procedure_s"))
            if r["status"] == "Success" and not unsat and ncov:
                rec.update(status="discharged")
            elif r["status"] == "Success":
                rec.update(status="undecided", why="vacuous: the witness behind the precondition is unreachable: "
                           + "; ".join(c["description"] for c in unsat))
            elif genuine and not unwind and not unsup:
                rec.update(status="refuted", why="; ".join(sorted({c["description"] for c in genuine})[:4]))
            elif genuine:
                rec.update(status="suspect", why="; ".join(sorted({c["description"] for c in genuine})[:4])
                           + " (with an unwinding or unsupported-construct failure)")
            else:
                why = "loop bound exceeded" if unwind else "unsupported construct" if unsup else \
                    "undetermined" if undet else "the verifier timed out or ran out of memory"
                rec.update(status="undecided", why=why)
            results[h] = rec
        missing = [h for h in u["expect"] if h not in results]
        if missing:
            die("harnesses missing from the verifier's output: %s" % missing[:5], out)

    ver = tools_version(data) if results and data else ""
    violation = None
    searched = {}
    known = props.known(PROP)
    order = {"refuted": 0, "suspect": 1, "undecided": 2}
    open_ = sorted([(order[r["status"]], h) for h, r in results.items() if r["status"] != "discharged"])
    tried = 0
    for k, h in open_:
        r = results[h]
        u = r["unit"]
        path = os.path.join(VERIF, "evidence", "replay", "%s-%s.txt" % (PROP, h.replace("::", ".")))
        log = os.path.join(WORK, "out")
        feats = u["features"]
        if violation and (tried >= 3 or k > 0):
            continue
        if left() < 40:
            break
        found = None
        out = ""
        if r["status"] in ("refuted", "suspect") and tried < 3 and left() > 200:
            tried += 1
            vals, out = playback(h, feats, u["timeout"])
            for kind, desc, hexs in vals:
                rc, o = replay_values(h, feats, hexs, path)
                if rc not in (0, 3):
                    found = ("counterexample of the verifier", o, hexs)
                    break
        if not found:
            budget = 8000 if r["status"] != "undecided" else max(2000, min(20000, int(left() * 1000 / 2 / max(1, len(open_)))))
            rc, o = fuzz(h, feats, budget, path)
            if rc is not None and rc not in (0, 2, 3) and os.path.exists(path):
                found = ("input found by random search", o, open(path).read().strip())
            elif rc is None or rc < 0:
                o = "the search was stopped"
            searched[h] = o
        if found:
            with open(path, "w") as f:
                f.write(found[2] + "\n")
            with open(path + ".why", "w") as f:
                f.write("property %s\nharness %s\nobligation(s) refuted: %s\n%s\n%s\nreplay: (cd %s && cargo build --release --offline --bin replay %s && target/release/replay values %s %s)\n"
                        % (PROP, h, r["why"], found[0], found[1], HARN, " ".join(feature_args(feats)), h, path))
            r["found"] = found[1]
            fp = h + ": " + found[1]
            kf = [x for x in known if x["match"] in fp]
            if kf:
                print("KNOWN-FINDING: property=%s %s" % (PROP, kf[0]["text"]))
                r["status"] = "known"
                continue
            violation = (h, path, "", r["why"] + " | " + found[1])
            break
        if r["status"] == "refuted" and not violation:
            with open(path, "w") as f:
                f.write("failed obligation in harness %s: %s\nno failing input was reproduced natively (%s)\n\n%s\n"
                        % (h, r["why"], searched.get(h, ""), out[-20000:]))
                json.dump([c for c in r["checks"] if c["status"] == "Failure"], f, indent=1)
            violation = (h, path, " no-failing-input-found", r["why"])
    evidence(units, results, cmds, ver, searched, violation)
    n = len(results)
    nd = sum(r["status"] == "discharged" for r in results.values())
    print("property %s (%s): %d of %d harnesses discharged, %.0f s" % (PROP, TIER, nd, n, time.time() - T0))
    for h, r in sorted(results.items()):
        if r["status"] not in ("discharged",):
            print("  %s %s: %s %s" % (r["status"], h, r["why"], searched.get(h, "")))
    if violation:
        print("failed obligation: %s: %s" % (violation[0], violation[3]))
        print("VIOLATION property=%s replay=%s%s" % (PROP, violation[1], violation[2]))
        sys.exit(1)
    sys.exit(0)


def tools_version(data):
    t = data.get("tools", {})
    return "kani %s, cbmc %s, %s" % (t.get("kani"), t.get("cbmc"),
                                     ", ".join(s["version"] for s in t.get("solvers", []) if s.get("version")))


def evidence(units, results, cmds, ver, searched, violation):
    obl = dis = bobl = bdis = 0
    funcs, solvers, bfun = {}, {}, set()
    unproved = []
    samples = []
    for h, r in sorted(results.items()):
        cs = [c for c in r["checks"] if c.get("category") != "cover" and c["status"] != "Unreachable"]
        ok = [c for c in cs if c["status"] == "Success"]
        # verification conditions CBMC generated for this harness (checks in unreached code are not counted)
        n = r.get("vcc") or max(1, len([c for c in cs if (c.get("location") or {}).get("file", "").startswith("src/")]))
        d = n if r["status"] == "discharged" else 0
        if props.is_bounded(h):
            bobl, bdis = bobl + n, bdis + d
        else:
            obl, dis = obl + n, dis + d
        for c in ok if r["status"] == "discharged" else []:
            f = (c.get("location") or {}).get("file", "")
            fn = re.sub(r"::<(?!impl)[^>]*(<.*>)?[^>]*>$", "", c["function"])
            if f.startswith("/repo/") and any(re.search(x, fn) for x in P.get("functions", [])):
                (bfun.add(fn) if props.is_bounded(h) else funcs.setdefault(fn, set()).add(h))
        if r["status"] != "discharged":
            unproved.append("%s: %s (%s) %s" % (h, r["status"], r["why"], searched.get(h, "")))
        k = r.get("solver") or "?"
        s = solvers.setdefault(k, dict(harnesses=0, solver_s=0.0))
        s["harnesses"] += 1
        s["solver_s"] = round(s["solver_s"] + (r.get("solver_s") or 0), 3)
    cov = dict(
        obligations=obl, discharged=dis, checker_cmd=" ; ".join(c[:2000] for c in cmds), verifier=ver,
        trusted_base=props.TRUSTED + P.get("trusted", []),
        harnesses=len(results), harnesses_discharged=sum(r["status"] == "discharged" for r in results.values()),
        functions_under_contract=sorted(funcs), back_ends=solvers,
        bounded_obligations=bobl, bounded_discharged=bdis, bounded_functions=sorted(bfun),
        bounds=P.get("bounds", []), not_discharged=unproved,
        postconditions=sorted({c["description"] for r in results.values() if r["status"] == "discharged"
                               for c in r["checks"] if (c.get("location") or {}).get("file", "").startswith("src/")
                               and c["status"] == "Success" and c.get("category") == "assertion"})[:200],
        vacuity_witnesses=sum(1 for r in results.values() for c in r["checks"]
                              if c.get("category") == "cover" and c["status"] == "Satisfied"))
    if P["level"] == "other" or P["level"] == "model_checking":
        cov["explanation"] = P["note"]
    if P["level"] == "model_checking":
        cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=samples)
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=P["level"], coverage=cov,
              assumptions=props.ASSUMPTIONS + P.get("assume", []) + props.scan(results),
              wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
