#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree.

1. The extractor (extract/) takes the functions the property depends on out of /repo's source, splices the contracts of
   contracts/*.vc in and writes one Verus file per unit; Verus discharges every obligation, function by function.
2. A vacuity run requires that no function under contract proves `false` at its end.
3. The runtime replay (harness/) runs the real code, built from /repo, against the same contracts on generated cases: it
   finds the failing input when an obligation fails, and checks the assumed contracts (bounded, never counted as proved).

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Details: DESIGN.md.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
VERUS = "/opt/veriftools/verus/verus"
T0 = time.time()
with open(f"{V}/contracts/props.json") as f:
    PROPS = json.load(f)
TRUST = {
    "common": [
        "Verus 0.2026.09.13 and its Z3; rustc; the extractor /verif/extract (what it drops or rewrites is listed in DESIGN.md)",
        "contracts/prelude.vc: assumed contracts of HashMap, HashSet, Vec, Option and iterator operations of std",
        "equality, ordering and cloning of the key, value and message types are structural (ax_eq, ax_cl, ax_ord)",
        "allocation never fails; hashing terminates; logging and metrics calls are dropped as effect-free",
    ],
}


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    return e


def run(cmd, timeout, cwd=None, extra=None):
    e = env()
    e.update(extra or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr, time.time() - t
    except subprocess.TimeoutExpired as x:
        d = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return -999, d(x.stdout), d(x.stderr), time.time() - t


# ---------------------------------------------------------------- verifier side
def build_extractor():
    rc, o, e, _ = run(["cargo", "build", "-q", "--offline"], 600, cwd=f"{V}/extract", extra={"CARGO_TARGET_DIR": f"{B}/vx"})
    if rc != 0:
        raise SystemExit(f"error: the extractor does not build: {e[-2000:]}")
    return f"{B}/vx/debug/vx"


def verus(path, extra, timeout):
    rc, o, e, secs = run([VERUS, path, "--edition", "2021", "--triggers-mode", "silent", "--multiple-errors", "20", "--output-json",
                          "--time-expanded", "--error-format=json", "--num-threads", "4"] + extra, timeout)
    if rc == -999:
        return None, [], "timeout", secs
    res = None
    for m in re.finditer(r"^\{", o, re.M):
        try:
            d, _ = json.JSONDecoder().raw_decode(o[m.start():])
        except ValueError:
            continue
        if "verification-results" in d:
            res = d
            break
    diags = []
    for line in e.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting"):
                diags.append(d)
    return res, diags, e, secs


PROOF_ERROR = re.compile(r"^(postcondition|precondition|invariant|decreases|termination|loop|assertion|bitvector|nonlinear|possible |value may fail|constructed value|requires|ensures|failed (pre|post)|could not prove|unable to prove|function body check|while loop|recommendation)|rlimit|[Rr]esource limit|timeout|could not finish")


def errline(d):
    """The lines a diagnostic can belong to: where the obligation arises, not where the callee's contract is."""
    pr = [s for s in d["spans"] if s.get("is_primary")]
    ot = [s for s in d["spans"] if not s.get("is_primary")]
    m = d["message"]
    if "postcondition" in m:
        order = ot + pr       # the end of the body first
    else:
        order = [s for s in pr if "failed precondition" not in (s.get("label") or "")] + [s for s in ot if "failed precondition" not in (s.get("label") or "")] + pr
    return [s["line_start"] for s in order]


def clause(d, text):
    out = []
    for s in d["spans"]:
        ln = s["line_start"]
        if 0 < ln <= len(text):
            out.append(text[ln - 1].strip()[:300])
    return out


def verify(unit, tier, seed):
    """Verifies one unit. Returns dict(status, fns, fails, ...)."""
    rs, js = f"{B}/units/{unit}.rs", f"{B}/units/{unit}.json"
    os.makedirs(f"{B}/units", exist_ok=True)
    vx = f"{B}/vx/debug/vx"
    rc, o, e, _ = run([vx, REPO, f"{V}/contracts", f"{unit}.vc", rs, js], 60)
    r = {"unit": unit, "status": "ok", "fns": [], "fails": [], "undecided": [], "smt_ms": 0, "verified": 0, "errors": 0, "secs": 0, "vacuous": [], "why": ""}
    if rc != 0:
        r.update(status="not-extracted", why=(e or o).strip()[-500:])
        return r
    meta = json.load(open(js))
    r["fns"], r["notes"] = meta["fns"], meta["notes"]
    text = open(rs).read().splitlines()
    res, diags, raw, secs = verus(rs, ["--rlimit", "60"], 400)
    r["secs"] = round(secs, 1)
    other = [d for d in diags if d.get("code") or not PROOF_ERROR.search(d.get("message", ""))]
    if res is None or res["verification-results"].get("encountered-vir-error") or "verified" not in res["verification-results"] or other:
        # not an answer about an obligation: the text is not accepted (a type error, an unsupported construct)
        diags = other or diags
        msg = [d["message"] + " | " + " / ".join(clause(d, text)) for d in diags[:5]]
        r.update(status="rejected", why="; ".join(msg)[:1500] or raw[-500:])
        return r
    vr = res["verification-results"]
    r["verified"], r["errors"] = vr["verified"], vr["errors"]
    times = {}
    for m in res["times-ms"]["smt"]["smt-run-module-times"]:
        for f in m.get("function-breakdown", []):
            times[f["function"].split("::code::")[-1]] = f
            r["smt_ms"] += f["time-micros"] / 1000
    r["times"] = {k: round(v["time-micros"] / 1000, 1) for k, v in times.items()}
    bad_keys = {k for k, v in times.items() if not v["success"]}
    for d in diags:
        key = None
        for ln in errline(d):
            for f in r["fns"]:
                if f["start"] <= ln < f["end"]:
                    key = f["key"]
                    break
            if key:
                break
        rec = {"fn": key, "message": d["message"], "at": clause(d, text), "labels": [s.get("label") for s in d["spans"]], "rendered": (d.get("rendered") or "")[:4000]}
        if re.search(r"rlimit|[Rr]esource limit|timeout|could not finish", d["message"]):
            r["undecided"].append(rec)
        else:
            r["fails"].append(rec)
    if r["errors"] and not r["fails"] and not r["undecided"]:
        r["undecided"].append({"fn": None, "message": "errors without a diagnostic", "at": sorted(bad_keys), "labels": [], "rendered": ""})
    if r["fails"] or r["undecided"]:
        r["status"] = "failed" if r["fails"] else "undecided"
        return r
    # other SMT seeds (stability), thorough tier only
    if tier == "thorough":
        r["seeds"] = []
        for k in range(3):
            res2, d2, _, s2 = verus(rs, ["--rlimit", "60", "-V", f"no-solver-version-check", "--smt-option", f"smt.random_seed={seed * 7 + k + 1}", "--smt-option", f"sat.random_seed={seed * 7 + k + 1}"], 400)
            r["seeds"].append({"seed": seed * 7 + k + 1, "errors": None if res2 is None else res2["verification-results"].get("errors"), "secs": round(s2, 1)})
    return r


def vacuity(unit):
    rs, js = f"{B}/units/{unit}_vac.rs", f"{B}/units/{unit}_vac.json"
    os.makedirs(f"{B}/units", exist_ok=True)
    rc, o, e, _ = run([f"{B}/vx/debug/vx", REPO, f"{V}/contracts", f"{unit}.vc", rs, js], 60, extra={"VX_VACUITY": "1"})
    if rc != 0:
        return {"unit": unit, "checked": 0, "vacuous": [], "ok": False}
    meta = json.load(open(js))
    res, diags, raw, secs = verus(rs, ["--rlimit", "10"], 400)
    if res is None or "verified" not in res["verification-results"] or any(d.get("code") or not PROOF_ERROR.search(d.get("message", "")) for d in diags):
        return {"unit": unit, "checked": 0, "vacuous": [], "ok": False}
    st = {}
    for m in res["times-ms"]["smt"]["smt-run-module-times"]:
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::code::")[-1]
            st[n] = st.get(n, True) and f["success"]
    want = [f["key"] for f in meta["fns"] if f["vacuity"]]
    got = {}
    for k, ok in st.items():
        if "vxv_" in k:
            got[k.replace("vxv_", "")] = ok
    # a trait's default method is verified under the name of the type it was taken for
    def proved_false(k):
        if k in got:
            return got[k]
        alt = [ok for n, ok in got.items() if n.split("::")[-1] == k.split("::")[-1]]
        return all(alt) if alt else True
    vac = [k for k in want if proved_false(k)]
    return {"unit": unit, "checked": len(want), "vacuous": vac, "ok": True}


# ---------------------------------------------------------------- replay side
def reuse_third_party():
    """Copies the third-party crates' build output of the repository's own test build, if there is one; cargo decides by
    fingerprint what of it fits and rebuilds the rest. The repository's own crates are left out: always built anew."""
    src, dst = "/opt/vp/ws/target/debug", f"{B}/ht/debug"
    if os.path.exists(dst) or not os.path.isdir(f"{src}/deps"):
        return
    os.makedirs(dst)
    run(["sh", "-c", f"cd {src} && tar cf - --exclude='*cdn_*' --exclude='cdn-*' --exclude='*verif*' deps build .fingerprint | tar xf - -C {dst}"], 120)


def build_runner(mods):
    ws = f"{B}/ws"
    rc, o, e, _ = run(["python3", f"{V}/harness/mkws.py", REPO, ws, ",".join(mods)], 60)
    if rc != 0:
        return None, f"workspace: {(e or o)[-800:]}"
    reuse_third_party()
    rc, o, e, secs = run(["cargo", "build", "-q", "-p", "verif-runner", "--offline"], 700, cwd=ws, extra={"CARGO_TARGET_DIR": f"{B}/ht"})
    if rc != 0:
        errs = [l for l in e.splitlines() if l.startswith("error")]
        return None, "does not build: " + "; ".join(errs[:5])
    return f"{B}/ht/debug/verif-runner", f"built in {secs:.0f} s"


def replay(exe, prop, seed, scale, only=None, timeout=500):
    rc, o, e, secs = run([exe, prop, str(seed), str(scale)] + ([only] if only else []), timeout, extra={"RUST_BACKTRACE": "0"})
    last = o.strip().splitlines()[-1] if o.strip() else ""
    try:
        d = json.loads(last)
    except ValueError:
        d = None
    return rc, d, (o + e)[-1500:], secs


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[prop]
    os.makedirs(f"{B}/replay", exist_ok=True)
    base = json.load(open(f"{V}/contracts/baseline.json")) if os.path.exists(f"{V}/contracts/baseline.json") else {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fr = ex.submit(build_runner, P["mods"]) if P.get("mods") else None
        build_extractor()
        fv = [ex.submit(verify, u, tier, seed) for u in P["units"]]
        fc = [ex.submit(vacuity, u) for u in P["units"]]
        units, vacs = [f.result() for f in fv], [f.result() for f in fc]
        exe, built = fr.result() if fr else (None, "no replay for this property")

    # -------- the verifier's answer for this property's functions
    fails, undec, under, skipped = [], [], [], []
    changed = []
    for u in units:
        bl = base.get(u["unit"], {})
        mine = [f for f in u["fns"] if prop in f["props"]]
        if u["status"] in ("not-extracted", "rejected"):
            undec.append(f"unit {u['unit']}: {u['status']}: {u['why']}")
            continue
        sk = {f["key"]: [f["loops"], f["closures"], f["verified"], f["asserts"]] for f in u["fns"]}
        same_helpers = sorted(sk) == sorted(bl)
        minek = {f["key"] for f in mine}
        for f in mine:
            if f["verified"]:
                under.append((u, f))
        for r in u["undecided"]:
            if r["fn"] in minek or r["fn"] is None:
                undec.append(f"{u['unit']}: {r['fn']}: {r['message']}")
        for r in u["fails"]:
            helper = r["fn"] not in minek and (r["fn"] is None or not any(f["key"] == r["fn"] and f["known"] for f in u["fns"]))
            if r["fn"] in minek or helper:
                ok = same_helpers and sk.get(r["fn"]) == bl.get(r["fn"]) and not any(n.startswith(f"{r['fn']}:") for n in u["notes"])
                (fails if ok else changed).append((u, r))
    badfn = {r["fn"] for _, r in fails + changed}
    for v in vacs:
        if v["vacuous"]:
            mk = {f["key"] for u in units if u["unit"] == v["unit"] for f in u["fns"] if prop in f["props"]}
            for k in v["vacuous"]:
                if k in mk:
                    undec.append(f"{v['unit']}: {k} proves false at its end (vacuous contract)")

    # -------- replay on the real code
    scale = 1.0 if tier == "quick" else 20.0
    if (fails or changed or undec) and tier == "quick":
        scale = 4.0        # look harder for the failing input
    found, rep, crash = None, None, None
    if exe:
        rc, d, raw, secs = replay(exe, prop, seed, scale, timeout=400 if tier == "quick" else 3000)
        if rc == 1 and d:
            # the same case again: hash maps are seeded anew in every run, so it can take several
            for _ in range(25):
                rc2, d2, _, _ = replay(exe, prop, seed, scale, d["case"], timeout=150)
                if rc2 == 1:
                    found = d2
                    break
            else:
                rc2, d2, _, _ = replay(exe, prop, seed, scale)
                if rc2 == 1:
                    found = d2
                else:
                    rep = {"flaky": d}
                    undec.append(f"replay case {d['case']} failed once and not again")
        elif rc == 0:
            rep = d
        elif rc == -999:
            undec.append("the replay did not finish in time")
        else:
            rc2, d2, raw2, _ = replay(exe, prop, seed, scale)
            if rc2 == rc and rc < 0:
                found = {"property": prop, "case": "crash", "what": f"the replay process died with status {rc}", "input": raw2}
            else:
                undec.append(f"the replay ended with status {rc}: {raw[-300:]}")
    elif P.get("mods"):
        undec.append(f"replay harness: {built}")

    # -------- verdict
    known = []
    kf = f"{V}/KNOWN_FINDINGS.txt"
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith(f"property={prop} ")]
    viol = None
    path = f"{B}/replay/{prop}.txt"
    if found:
        viol = ""
        with open(path, "w") as f:
            f.write(f"property {prop}: {P['title']}\nfailing case on the real code (re-run: python3 {V}/check.py --replay {prop} {seed} {scale} {found.get('case')})\n\nwhat: {found.get('what')}\n\ninput:\n{found.get('input')}\n")
            for u, r in fails + changed:
                f.write(f"\nfailed obligation in {r['fn']} (unit {u['unit']}): {r['message']}\n  " + "\n  ".join(r["at"]) + f"\n{r['rendered']}\n")
    elif fails:
        viol = " no-failing-input-found"
        with open(path, "w") as f:
            f.write(f"property {prop}: {P['title']}\nno failing input found by the replay ({json.dumps(rep)})\n")
            for u, r in fails:
                f.write(f"\nfailed obligation in {r['fn']} (unit {u['unit']}): {r['message']}\n  " + "\n  ".join(r["at"]) + f"\n{r['rendered']}\n")

    # -------- evidence
    nclauses = sum(f["clauses"] for _, f in under)
    okf = [f for u, f in under if f["key"] not in badfn and not any(f["key"] in x for x in undec)]
    assum = list(TRUST["common"]) + P.get("assumptions", [])
    ext = sorted({f"assumed contract, body not verified in this unit: {f['key']}" for u in units for f in u["fns"] if not f["verified"]})
    helpers = sorted({f["key"] for u in units for f in u["fns"] if not f["known"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "proof"),
        "coverage": {
            "obligations": sum(f["clauses"] + 1 for _, f in under),
            "discharged": sum(f["clauses"] + 1 for f in okf),
            "obligation_rule": "per function under contract: one body obligation (calls' preconditions, overflow, loop invariants, termination of for-loops) plus one per postcondition clause",
            "checker_cmd": "; ".join(f"{VERUS} {B}/units/{u}.rs --edition 2021 --rlimit 60" for u in P["units"]),
            "trusted_base": assum + ext,
            "functions_under_contract": [{"function": f["key"], "source": f"{f['source']}:{f['line']}", "clauses": f["clauses"], "loops": f["loops"], "solver_ms": u.get("times", {}).get(f["key"]), "discharged": f in okf} for u, f in under],
            "helpers_without_contract": helpers,
            "back_end": "Verus/Z3",
            "solver_ms": round(sum(u["smt_ms"] for u in units), 1),
            "verus_functions_verified": {u["unit"]: u["verified"] for u in units},
            "vacuity": [{k: v[k] for k in ("unit", "checked", "vacuous", "ok")} for v in vacs],
            "smt_seeds": [{"unit": u["unit"], "runs": u.get("seeds")} for u in units if u.get("seeds")],
            "undecided": undec + [f"{u['unit']}: {r['fn']}: {r['message']} (structure changed; decided by the bounded replay only)" for u, r in changed],
            "bounded_replay": {"label": "bounded: runtime replay of the contracts on generated cases, checks the assumed contracts, never counted as proved", "build": built, "scale": scale, "result": rep or found},
        },
        "assumptions": assum,
        "wall_s": round(time.time() - T0, 1),
        "violations": 1 if viol is not None else 0,
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: " + k)
    for x in ev["coverage"]["undecided"]:
        print("undecided: " + x[:600])
    for u, r in fails:
        print(f"failed obligation: {r['fn']}: {r['message']}: {' / '.join(r['at'][:2])}")
    if found:
        print(f"failing case: {found.get('case')}: {found.get('what')}")
    print(f"{prop}: {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations of {len(under)} functions discharged, solver {ev['coverage']['solver_ms']} ms, replay {json.dumps(rep)[:300]}, {ev['wall_s']} s")
    if viol is not None:
        print(f"VIOLATION property={prop} replay={path}{viol}")
        sys.exit(1)


def rebase():
    """--baseline: records the structure (loops, closures, helpers) of the functions of every unit."""
    build_extractor()
    out = {}
    for u in sorted({u for p in PROPS.values() for u in p["units"]}):
        r = verify(u, "quick", 1)
        print(u, r["status"], r["why"][:300], r["verified"], r["errors"], f"{r['secs']} s", f"{r['smt_ms']:.0f} ms")
        out[u] = {f["key"]: [f["loops"], f["closures"], f["verified"], f["asserts"]] for f in r["fns"]}
    with open(f"{V}/contracts/baseline.json", "w") as f:
        json.dump(out, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "--baseline":
        rebase()
    elif sys.argv[1] == "--replay":
        exe, b = build_runner(PROPS[sys.argv[2]]["mods"])
        os.execv(exe, [exe] + sys.argv[2:])
    else:
        main()
