#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo's current tree by static analysis.

Builds the rustc driver (driver/) if needed, dumps the type-checked MIR of every crate of /repo's workspace, and runs the
rules of the property (analysis/rules).  The program under analysis is never executed."""
import sys, os, json, hashlib, subprocess, shutil, time, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")


def files_hash(root, keep):
    h = hashlib.sha256()
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in ("target", ".git", "__pycache__", "node_modules", ".venv"))
        for f in sorted(fn):
            if keep(f):
                p = os.path.join(dp, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"])[1].strip()


def driver():
    """the rustc driver, built from driver/"""
    src = os.path.join(HERE, "driver")
    key = files_hash(src, lambda f: f.endswith((".rs", ".toml", ".lock")))
    exe = os.path.join(BUILD, "driver", "release", "mirdump")
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    rc, out = run(["cargo", "+nightly", "build", "--offline", "--release", "--target-dir", os.path.join(BUILD, "driver")], cwd=src)
    if rc:
        die("cannot build the driver:\n" + out)
    open(stamp, "w").write(key)
    return exe, key


CRATES = ["phlite.lib", "phlite_grpph.lib", "phlite_grpph_cli.bin", "phlite_py.lib", "phlite_rips.lib", "phlite_rips_cli.bin"]


def dump():
    """facts about /repo's current tree: one JSON file per crate"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dk = driver()
        key = files_hash(REPO, lambda f: f.endswith((".rs", ".toml", ".lock", ".pyi"))) + dk
        out = os.path.join(BUILD, "facts")
        stamp = os.path.join(BUILD, "facts.stamp")
        if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            return out, key
        if os.path.exists(stamp):
            os.remove(stamp)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "target")
        for sub in ("build", ".fingerprint"):      # cargo would skip the wrapper for crates it considers fresh (either layout)
            fp = os.path.join(tgt, "debug", sub)
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("phlite"):
                        shutil.rmtree(os.path.join(fp, d))
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
                   PYO3_PYTHON=shutil.which("python3") or "/usr/bin/python3", CARGO_TERM_COLOR="never")
        env.pop("RUSTFLAGS", None)
        rc, log = run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline", "--target-dir", tgt], env=env, cwd=REPO)
        if rc:
            die("the tree does not type-check:\n" + log[-4000:])
        if not all(os.path.exists(os.path.join(out, c + ".json")) for c in CRATES):
            # crates taken from the build folder after all: start over from an empty one
            shutil.rmtree(tgt, ignore_errors=True)
            rc, log = run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline", "--target-dir", tgt], env=env, cwd=REPO)
        for c in CRATES:
            if not os.path.exists(os.path.join(out, c + ".json")):
                die("no facts for crate %s:\n%s" % (c, log[-2000:]))
        open(stamp, "w").write(key)
        return out, key


def known_findings(pid):
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                w = line.split(None, 3)
                if w[1] == "property=" + pid:
                    r[w[2][4:]] = w[3].strip() if len(w) > 3 else ""
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if args == ["setup"]:
        dump()
        return 0
    pid = args[0]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    facts_dir, key = dump()
    from mir import Program
    import core, interp, rules.registry, meta
    if pid not in core.RULES:
        die("no rules for " + pid)
    interp.SEED = (seed - 1) * 6007
    prog = Program(facts_dir)
    ctx = core.Ctx(prog, tier == "thorough")
    ctx.prop = pid
    ctx.repo = REPO
    ctx.target = os.path.join(BUILD, "target")
    core.deadline(3000 if ctx.thorough else 550)
    for f in core.RULES[pid]:
        ctx.guarded(f.__name__, lambda: f(ctx))
    core.deadline(0)
    return report(ctx, pid, tier, seed, t0, key, core, meta)


def report(ctx, pid, tier, seed, t0, key, core, meta):
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = os.path.join(ev, pid + ".report.txt")
    count = {}
    for o in ctx.obs:
        count[o.status] = count.get(o.status, 0) + 1
    known = known_findings(pid)
    viol = [o for o in ctx.obs if o.status == core.VIOL]
    new = [o for o in viol if o.key() not in known]
    und = [o for o in ctx.obs if o.status == core.UNDEC]
    decided = len(ctx.obs) - len(und)
    lines = ["property %s, tier %s, facts %s" % (pid, tier, key), ""]
    for o in ctx.obs:
        lines.append("%-22s %s  [%s]%s" % (o.status, o.key(), o.at or "", ("\n        " + o.detail) if o.detail else ""))
    lines += ["", "functions summarised: " + ", ".join(sorted(ctx.analysed)), "",
              "functions inlined: " + ", ".join(sorted(ctx.inlined)), "",
              "library functions used through a model: " + ", ".join(sorted(map(str, ctx.modelled))), "",
              "library functions left opaque: " + ", ".join(sorted(map(str, ctx.externals)))]
    with open(rep, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    m = meta.META.get(pid, {})
    cov = {
        "explanation": m.get("explanation", "") + " Every obligation is listed in evidence/%s.report.txt with the source line it is about and how it was decided." % pid,
        "obligations": len(ctx.obs),
        "discharged": decided - len(viol),
        "undecided": len(und),
        "by_deciding_step": count,
        "functions_summarised": len(ctx.analysed),
        "functions_inlined": len(ctx.inlined),
        "library_models_used": len(ctx.modelled),
        "library_functions_opaque": len(ctx.externals),
        "term_interpretations": ctx.samples,
        "bodies_in_program": len(ctx.prog.bodies),
        "rule": m.get("rule", ""),
        "samples": ["%s: %s [%s]" % (o.key(), o.status, o.at) for o in ctx.obs[:6]],
    }
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
                   "assumptions": meta.COMMON_ASSUMPTIONS + m.get("assumptions", []),
                   "wall_s": round(time.time() - t0, 2), "violations": len(new)}, fh, indent=1)
        fh.write("\n")
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions summarised, %d inlined; %.1f s" % (
        pid, len(ctx.obs), decided - len(viol), len(und), len(viol), len(ctx.analysed), len(ctx.inlined), time.time() - t0))
    for o in und:
        print("UNDECIDED %s [%s] %s" % (o.key(), o.at or "", o.detail[:300]))
    for o in viol:
        if o.key() in known:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, o.key(), known[o.key()]))
    for o in new:
        print("%s: %s\n    %s" % (o.at or "?", o.key(), o.detail))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    if new:
        return 1
    if not ctx.obs or ctx.missing:
        print("ERROR: anchors of the property were not found: %s" % "; ".join(ctx.missing))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
