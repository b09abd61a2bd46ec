"""Verus side of a check: extract the functions from the source, weave the contracts in, verify.

Returns {failed, obligations, discharged, undetermined, trusted, assumptions, evidence}.
A failed obligation is reported only for a function whose control structure is the one the proof was
written for (contracts/<ID>/verus/<name>.shapes); otherwise the failure counts as undetermined.
"""
import json, os, re, subprocess, time, hashlib

def build_extractor(HERE, ENV):
    exe = f"{HERE}/target/vextract/release/vextract"
    src = f"{HERE}/tools/vextract/src/main.rs"
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src): return exe, ""
    env = dict(ENV); env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--release", "--locked", "--target-dir", f"{HERE}/target/vextract"], cwd=f"{HERE}/tools/vextract",
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (exe if p.returncode == 0 else None), p.stdout[-1500:]

def find_verus():
    for p in ("/usr/local/bin/verus", "/opt/veriftools/verus/verus"):
        if os.path.exists(p): return p
    return "verus"

def verus(path, ENV, timeout, extra=()):
    env = dict(ENV); env.pop("RUSTFLAGS", None)
    cmd = [find_verus(), os.path.basename(path), "--output-json", "--error-format=json", "--num-threads", "4", *extra]
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try: out, err = p.communicate(timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, [], ""
    try: res = json.loads(out[out.index("{"):])["verification-results"]
    except Exception: res = None
    diags = []
    for l in err.split("\n"):
        if l.startswith("{"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error": diags.append(d)
    return res, diags, err

def regions(text):
    reg, cur = [], None
    for i, l in enumerate(text.split("\n"), 1):
        if l.startswith("//VXFN "): cur = (l[7:].strip(), i)
        elif l.startswith("//VXEND") and cur: reg.append((cur[0], cur[1], i)); cur = None
    return reg

def at(reg, d, fname):
    """The extracted function in which a diagnostic's obligation arises: a call site before a contract clause."""
    lines = [(s["is_primary"], s["line_start"]) for s in d["spans"] if os.path.basename(s["file_name"]) == fname]
    hits = []
    for prim, ln in lines:
        for n, a, b in reg:
            if a <= ln <= b: hits.append((prim, n, a))
    return hits

def run_all(ID, HERE, REPO, BUILD, ENV, TIER, DEADLINE):
    R = {"failed": [], "obligations": 0, "discharged": 0, "undetermined": [], "trusted": [], "assumptions": [], "evidence": []}
    meta = json.load(open(f"{HERE}/contracts/{ID}/meta.json"))["verus"]
    exe, out = build_extractor(HERE, ENV)
    if not exe:
        R["undetermined"].append("extractor does not build: " + out); return R
    os.makedirs(f"{BUILD}/verus", exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(max_workers=3) as ex:
        for r in ex.map(lambda n: one(n, ID, HERE, REPO, BUILD, ENV, TIER, DEADLINE, exe, meta[n]), list(meta)):
            for k in ("failed", "undetermined", "trusted", "assumptions", "evidence"):
                for x in r[k]:
                    if x not in R[k]: R[k].append(x)
            R["obligations"] += r["obligations"]; R["discharged"] += r["discharged"]
    return R

def one(name, ID, HERE, REPO, BUILD, ENV, TIER, DEADLINE, exe, m):
    r = {"failed": [], "obligations": 0, "discharged": 0, "undetermined": [], "trusted": [], "assumptions": list(m.get("assumptions", [])), "evidence": []}
    t0 = time.time()
    o, sh = f"{BUILD}/verus/{name}.rs", f"{BUILD}/verus/{name}.shapes"
    p = subprocess.run([exe, REPO, f"{HERE}/contracts/{ID}/verus/{name}.rs", o, sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        r["undetermined"].append(f"verus/{name}: contracts cannot be woven into the current source: {p.stdout.strip()[:300]}"); r["obligations"] += 1; return r
    text = open(o).read()
    load = lambda p: {" ".join(l.split(" ")[:2]): " ".join(l.split(" ")[2:]) for l in open(p).read().split("\n") if l}
    now = load(sh)
    basef = f"{HERE}/contracts/{ID}/verus/{name}.shapes"
    base = load(basef) if os.path.exists(basef) else {}
    byfn = {k.split(" ")[1]: k for k in now}
    extra = ["--multiple-errors", "4"] + m.get("args", [])
    res, diags, err = verus(o, ENV, min(m.get("timeout", 400), DEADLINE - time.time() - 120), extra)
    reg = regions(text)
    for mm in re.finditer(r"#\[verifier::external_body\]\s*\n?\s*(?:proof |exec |const )*(?:fn|struct)\s+(\w+)|assume_specification[^;]*?\[([^\]]+)\]|axiom fn (\w+)", text):
        r["trusted"].append(f"assumed contract ({name}): " + next(g for g in mm.groups() if g).strip())
    for bad in ("assume(", "admit("):
        if re.search(r"(?<![\w.])" + re.escape(bad), text): r["trusted"].append(f"{bad}...) in {name}")
    fns = sorted({n for n, _, _ in reg})
    if res is None or res.get("encountered-vir-error") or (res["verified"] == 0 and res["errors"] == 0):
        why = diags[0]["message"] if diags else "no verdict within the time limit"
        r["undetermined"].append(f"verus/{name}: the verifier does not accept the extracted text: {why[:200]}"); r["obligations"] += 1
        return r
    r["obligations"] += res["verified"] + res["errors"]; r["discharged"] += res["verified"]
    failed_fns = {}
    for d in diags:
        if d["message"].startswith("aborting due to"): continue
        hits = at(reg, d, os.path.basename(o))
        if not hits:
            r["undetermined"].append(f"verus/{name}: {d['message'][:120]} in ghost code"); continue
        # a precondition failure has the call site as primary span or the clause; prefer primary, else the last region
        prim = [h for h in hits if h[0]] or hits
        fn = prim[0][1]
        if "Resource limit" in d["message"] or "rlimit" in d["message"]:
            r["undetermined"].append(f"verus/{name}: {fn}: resource limit"); continue
        key = byfn.get(fn)
        if base.get(key) != now.get(key):
            r["undetermined"].append(f"verus/{name}: {fn}: {d['message'][:120]} (control structure differs from the one the proof was written for)"); continue
        failed_fns.setdefault(fn, []).append(d)
    for fn, ds in failed_fns.items():
        ob = ds[0]["message"]
        lab = [s["label"] + ": " + " ".join(t["text"].strip() for t in s["text"])[:200] for s in ds[0]["spans"] if s.get("label") and s["text"]]
        r["failed"].append({"function": fn, "obligation": f"Verus obligation in {fn}: {ob}" + (f" [{'; '.join(lab)}]" if lab else ""),
                            "output": "\n".join(d.get("rendered", "") for d in ds)[:6000], "replay_with": m.get("replay_with")})
    vac = []
    if not diags:
        # vacuity guard: `false` must not follow from any function's precondition
        v = re.sub(r"//VXENTRY\n((?:\s*hide\([^;\n]*;)*)", r"\1 proof { assert(false); }\n", text)
        vo = f"{BUILD}/verus/{name}_vac.rs"; open(vo, "w").write(v)
        vr, vd, _ = verus(vo, ENV, min(200, DEADLINE - time.time() - 120), ["--multiple-errors", "0"] + m.get("args", []))
        vreg = regions(v)
        if vr is None: r["undetermined"].append(f"verus/{name}: vacuity check gave no verdict")
        else:
            seen = set()
            for d in vd:
                for prim, n, a in at(vreg, d, os.path.basename(vo)): seen.add((n, a))
            vac = [n for n, a, b in vreg if (n, a) not in seen]
            for n in vac: r["undetermined"].append(f"verus/{name}: contract of {n} is vacuous")
    r["evidence"].append({"file": f"build/{ID}/verus/{name}.rs", "functions_under_contract": fns, "source": sorted({k.split(' ')[0] for k in now}),
                          "verified": res["verified"], "errors": res["errors"], "vacuous": vac, "wall_s": round(time.time() - t0, 2), "back_end": "Verus 0.2026.09.13 / Z3",
                          "sha256_of_woven_text": hashlib.sha256(text.encode()).hexdigest()[:16]})
    return r
