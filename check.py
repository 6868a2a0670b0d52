#!/usr/bin/env python3
"""Decide one property: discharge its contracts with Kani on /repo's current tree.

usage: check.py <ID> [--tier quick|thorough]

1. build the harness crate (path dependency on /repo) with the Kani compiler and discharge every
   contract harness of the property (CBMC back end), each for all inputs of its stated domain;
2. execute the same contracts natively on the current tree (the `native` contracts are complete
   enumerations or labelled bounded stand-ins; for the others this is the counterexample search);
3. a failed obligation is replayed on the real code with the verifier's own counterexample.
exit 0 = every obligation discharged; 1 = VIOLATION; 2 = no answer (tool error).
"""
import json, os, re, subprocess, sys, time, threading, hashlib

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
H = os.path.join(ROOT, "harness")
TGT = os.environ.get("DV_TARGET", os.path.join(ROOT, "target"))
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)

CFG = json.load(open(os.path.join(ROOT, "checks.json")))


def sh(cmd, timeout, env=None, cwd=H):
    t = time.time()
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, time.time() - t
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return -9, (out or "") + "\n[driver] timed out\n", time.time() - t


def native_build():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "native"), RUSTFLAGS="--cfg doodle_verif")
    return sh(["cargo", "build", "--quiet", "--bin", "dv"], 420, env)


def native_bin():
    return os.path.join(TGT, "native", "debug", "dv")


def parse_kani(out):
    """terse parallel output -> {harness: {...}}"""
    res, cur, th = {}, {}, None
    name = None
    for line in out.splitlines():
        m = re.match(r"^(?:Thread (\d+): ?)?(.*)$", line)
        if m.group(1) is not None:
            th = m.group(1)
            name = cur.get(th)
        rest = m.group(2)
        m2 = re.match(r"^Checking harness (\S+?)\.\.\.", rest)
        if m2:
            cur[th] = m2.group(1)
            name = m2.group(1)
            res[name] = {"status": "none", "failed": [], "cover": None, "time": 0.0, "checks": None, "text": []}
            continue
        if name is None or name not in res:
            continue
        r = res[name]
        r["text"].append(rest)
        if rest.startswith("Failed Checks:"):
            r["failed"].append(rest[len("Failed Checks:"):].strip())
        m3 = re.match(r"^ \*\* (\d+) of (\d+) cover properties satisfied", rest)
        if m3:
            r["cover"] = (int(m3.group(1)), int(m3.group(2)))
        m3 = re.match(r"^ \*\* (\d+) of (\d+) failed", rest)
        if m3:
            r["checks"] = (int(m3.group(1)), int(m3.group(2)))
        if rest.startswith("VERIFICATION:- "):
            r["status"] = rest[len("VERIFICATION:- "):].strip()
        if "CBMC timed out" in rest or "timed out" in rest:
            r["status"] = "TIMEOUT"
        m3 = re.match(r"^Verification Time: ([\d.]+)s", rest)
        if m3:
            r["time"] = float(m3.group(1))
    return res


def kani_cmd(extra, timeout):
    return ["cargo", "kani", "--lib", "-Z", "unstable-options", "-Z", "stubbing",
            "--harness-timeout", "%ds" % timeout, "--output-format", "terse"] + extra


KENV = dict(ENV, CARGO_TARGET_DIR=os.path.join(TGT, "kani"), RUSTFLAGS="--cfg doodle_verif")

SOFT = ("unwinding assertion", "not currently supported by Kani", "unsupported", "recursion unwinding",
        "Kani does not support", "call to foreign", "is not supported", "has not been implemented",
        "reached an unsupported")


def classify(kind, r):
    """-> 'ok' | 'violated' | 'undecided'"""
    st = r["status"]
    if st.startswith("SUCCESSFUL"):
        c = r["cover"]
        if c is None:
            return "undecided"
        if kind.endswith("panics"):
            return "ok" if c[0] == 0 else "violated"
        return "ok" if c[0] == c[1] else "undecided"
    if st.startswith("FAILED"):
        hard = [f for f in r["failed"] if not any(k in f for k in SOFT)]
        soft = [f for f in r["failed"] if any(k in f for k in SOFT)]
        if kind.endswith("panics"):
            # no panic at all, or a non-panic failure
            return "undecided" if soft else "violated"
        if hard and not soft:
            return "violated"
        if hard and soft:
            return "suspect"  # believed only with a concrete failing input
        return "undecided"
    return "undecided"


def playback(harness, timeout=240):
    rc, out, _ = sh(kani_cmd(["--harness", harness, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"], timeout),
                    timeout + 120, KENV)
    vals = []
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\];", out, re.S):
        v = []
        for x in re.finditer(r"^\s*vec!\[([\d, ]*)\]", m.group(1), re.M):
            v.append([int(y) for y in x.group(1).replace(" ", "").split(",") if y])
        vals.append(v)
    return vals, out


def hexv(v):
    return ",".join("".join("%02x" % b for b in x) for x in v)


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CFG[pid]
    mods = cfg["modules"] + (cfg.get("deep_modules", []) if tier == "thorough" else [])
    t0 = time.time()
    budget = 800 if tier == "quick" else 7200
    hto = cfg.get("harness_timeout", 300) if tier == "quick" else 3600
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    ev_path = os.path.join(ROOT, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)

    nat = {}

    def nat_thread():
        rc, out, dt = native_build()
        nat["build_rc"], nat["build_out"] = rc, out
        if rc == 0:
            rc2, lst, _ = sh([native_bin(), "list"], 30)
            nat["list"] = [l.split() for l in lst.splitlines() if l]
            nat["runs"] = {}
            for m in mods:
                secs = cfg.get("native_secs", {}).get(m, 3) * (1 if tier == "quick" else 10)
                rc3, o3, _ = sh([native_bin(), "run", m, "--seed", str(seed), "--iters", "100000000", "--secs", str(secs)], 400 if tier == "quick" else 3000)
                nat["runs"][m] = (rc3, o3)
            if "gen" in cfg:
                import gen
                g = cfg["gen"]
                work, gt = os.path.join(TGT, "gen"), os.path.join(TGT, "gen-target")
                try:
                    nat["gen"] = gen.run(native_bin(), seed, g["n"] if tier == "quick" else g["deep"], work, gt, repo=REPO)
                except Exception as e:  # no compiled decoder: no answer
                    nat["gen_error"] = str(e)

    nt = threading.Thread(target=nat_thread)
    nt.start()
    extra = []
    for m in mods:
        # modules whose contracts are all executed have no harness
        if re.search(r"#\[(holds|panics|modular|modular_panics)\]", open(os.path.join(H, "src", m + ".rs")).read()):
            extra += ["--harness", m + "::k::"]
    kout = ""
    if extra:
        rc, kout, kdt = sh(kani_cmd(extra + ["-j", "8"], hto), budget - 60, KENV)
    kres = parse_kani(kout)
    nt.join()
    if nat.get("build_rc") != 0 and not kres:
        print(nat.get("build_out", "")[-3000:])
        print(kout[-3000:])
        print("ERROR property=%s neither the verifier nor the native build accepts the current tree" % pid)
        sys.exit(2)

    kinds = {}
    if nat.get("list"):
        for m, n, k in nat["list"]:
            if m in mods:
                kinds[(m, n)] = k
    else:  # native build broken: harness list from kani
        for h in kres:
            m = h.split("::")
            kinds[(m[0], m[-1])] = "holds"

    natfail, natok = {}, {}
    for m, (rc3, o3) in nat.get("runs", {}).items():
        for line in o3.splitlines():
            x = re.match(r"^NATIVE-FAIL (\S+) (\S*) :: (.*)$", line)
            if x:
                natfail[(m, x.group(1))] = (x.group(2), x.group(3))
            x = re.match(r"^NATIVE-OK (\S+) executed=(\d+)", line)
            if x:
                natok[(m, x.group(1))] = int(x.group(2))

    known = json.load(open(os.path.join(ROOT, "known-findings.json")))
    gen_stat = None
    if "gen" in cfg:
        kinds[("gen", "decoders_agree")] = kinds[("gen", "decoders_compile")] = "native"
        if "gen" in nat:
            fails, gstat = nat["gen"]
            for k in known.get("findings", []):
                if k["property"] == pid and k["module"] == "gen" and any(k["input"] in f for f in fails):
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                    fails = [f for f in fails if k["input"] not in f]
            why = gstat.pop("why")
            if fails:
                natfail[("gen", "decoders_agree")] = (fails[0][fails[0].rfind("case "):], "\n".join(fails[:20]))
            else:
                natok[("gen", "decoders_agree")] = gstat["runs"]
            # formats whose decoder the Rust compiler rejects are rare and are always the same share
            made, lost = gstat["emitted"] + gstat["refused"], gstat["refused"] + gstat["rejected"]
            if made == 0 or lost > cfg["gen"]["lost"] * made:
                natfail[("gen", "decoders_compile")] = ("%d of %d formats" % (lost, made), "no decoder that compiles for %d of %d formats, e.g. %s" % (lost, made, list(why.items())[:5]))
            else:
                natok[("gen", "decoders_compile")] = gstat["emitted"]
            gen_stat = gstat
        else:
            gen_stat = {"error": nat.get("gen_error", "no native build")}
            print("gen: " + gen_stat["error"][-1500:])

    bounded = set(cfg.get("bounded", []))
    violations, undecided, proved, bnd, enum_ok = [], [], [], [], []
    checks_total = 0
    solver_s = 0.0
    for (m, n), kind in sorted(kinds.items()):
        key = "%s::%s" % (m, n)
        r = kres.get("%s::k::%s" % (m, n))
        if kind == "native":
            if (m, n) in natfail:
                violations.append((key, "native", natfail[(m, n)]))
            elif (m, n) in natok:
                enum_ok.append(key)
            else:
                undecided.append((key, "no native result"))
            continue
        if r:
            solver_s += r["time"]
            if r["checks"]:
                checks_total += r["checks"][1]
        c = classify(kind, r) if r else "undecided"
        if (m, n) in natfail:
            violations.append((key, "native+" + (r["status"] if r else "none"), natfail[(m, n)]))
        elif c == "ok":
            (bnd if (n in bounded or key in bounded or "*" in bounded) else proved).append(key)
        elif c in ("violated", "suspect"):
            found = None
            pout = ""
            if not kind.endswith("panics") and time.time() - t0 < budget - 200:
                vals, pout = playback("%s::k::%s" % (m, n))
                for v in vals:
                    if nat.get("build_rc") == 0:
                        rc4, o4, _ = sh([native_bin(), "replay", m, n, hexv(v)], 60)
                        if rc4 == 1:
                            found = (hexv(v), o4.strip())
                            break
            if not found and nat.get("build_rc") == 0:
                rc5, o5, _ = sh([native_bin(), "run", m, "--only", n, "--seed", str(seed + 77), "--iters", "1000000000", "--secs", "40"], 90)
                x = re.search(r"^NATIVE-FAIL (\S+) (\S*) :: (.*)$", o5, re.M)
                if x:
                    found = (x.group(2), x.group(3))
            if found:
                violations.append((key, "kani-counterexample", found))
            elif c == "violated":
                violations.append((key, "kani-no-input", (None, "; ".join(r["failed"]) + "\n" + "\n".join(r["text"][-60:]) + pout[-2000:])))
            else:
                undecided.append((key, "verifier bound exceeded by the current code: " + "; ".join(r["failed"])[:200]))
        else:
            undecided.append((key, (r["status"] + " " + "; ".join(r["failed"])[:200]) if r else "no verifier answer"))

    # undecided obligations: the native execution of the same contract is the labelled stand-in
    standin, noanswer = [], []
    for key, why in undecided:
        m, n = key.split("::")
        if natok.get((m, n), 0) > 0:
            standin.append((key, why))
        else:
            noanswer.append((key, why))

    # known findings
    for k in known.get("findings", []):
        if k["property"] != pid or k["module"] == "gen":
            continue
        if nat.get("build_rc") == 0:
            rc6, o6, _ = sh([native_bin(), "replay", k["module"], k["contract"], k["input"]], 60)
            if rc6 == 1:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    nob = len(kinds)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "functions_under_contract": cfg["functions"],
            "obligations": nob,
            "discharged": len(proved) + len(bnd) + len(enum_ok),
            "proved_unbounded": len(proved), "proved": proved,
            "bounded": bnd, "bounds": cfg.get("bounds", {}),
            "exhaustive_or_bounded_execution": enum_ok,
            "standin_this_run": [k for k, _ in standin],
            "undecided_this_run": ["%s: %s" % u for u in noanswer],
            "verifier_checks": checks_total,
            "solver_s": round(solver_s, 2),
            "back_end": "Kani 0.68.0 / CBMC 6.x, SAT solver CaDiCaL",
            "checker_cmd": " ".join(kani_cmd(extra, hto)),
            "native_executions": {("%s::%s" % k): v for k, v in sorted(natok.items())},
            "trusted_base": ["rustc front end and Kani's MIR-to-GOTO translation", "CBMC and its SAT back end",
                             "the spec functions in harness/src/{%s}.rs" % ",".join(mods)] + cfg.get("trusted", []),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    if "gen" in cfg:
        ev["coverage"]["compiled_decoders"] = gen_stat
    json.dump(ev, open(ev_path, "w"), indent=1)
    for k, w in standin:
        print("STAND-IN property=%s %s decided by bounded native execution (%s)" % (pid, k, w))
    if violations:
        for key, how, (inp, msg) in violations:
            rp = os.path.join(ROOT, "replays", "%s-%s.json" % (pid, key.replace("::", "-")))
            m, n = key.split("::")
            json.dump({"property": pid, "obligation": key, "how": how, "input": inp, "message": msg,
                       "replay_cmd": "python3 %s/gen.py %s %d %d /tmp/gen-replay /tmp/gen-replay-target" % (ROOT, native_bin(), seed, cfg["gen"]["n"]) if m == "gen"
                       else "%s replay %s %s '%s'" % (native_bin(), m, n, inp or "")}, open(rp, "w"), indent=1)
            print("failed obligation %s [%s]: %s" % (key, how, msg[:300].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if inp is not None else " no-failing-input-found"))
        sys.exit(1)
    if noanswer:
        for k, w in noanswer:
            print("NO-ANSWER property=%s %s: %s" % (pid, k, w))
        if nat.get("build_rc") != 0:
            print(nat["build_out"][-2000:])
        print(kout[-1500:])
        sys.exit(2)
    if nob == 0:
        print("ERROR no obligations")
        sys.exit(2)
    print("OK property=%s obligations=%d proved=%d bounded=%d executed=%d standin=%d checks=%d wall=%.0fs"
          % (pid, nob, len(proved), len(bnd), len(enum_ok), len(standin), checks_total, time.time() - t0))


main()
