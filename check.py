#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--scenario S] [--replay FILE]

Builds the property's harness together with the sources of /repo it drives
(from the current working tree, in a scratch directory that is removed again),
explores it exhaustively within the harness's bounds, writes
evidence/<property>.json and exits 0 (held), 1 (VIOLATION line printed) or
2/3/4 (the check itself could not decide).
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess
import sys
import tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "clang++-18"
COMMON = ["-std=c++17", "-O1", "-g1", "-include", "cstdint", "-w",
          "-fsanitize=address", "-fno-omit-frame-pointer",
          "-ftrivial-auto-var-init=pattern"]
BASE_INC = [f"-I{HERE}/harness"]

sys.path.insert(0, HERE)
from targets import TARGETS  # noqa: E402


def sources(patterns):
    res = []
    for p in patterns:
        m = sorted(glob.glob(os.path.join(REPO, "mpact/sim", p)))
        if not m:
            # The file may have been merged elsewhere; the link step decides.
            print(f"note: no source matches {p}", file=sys.stderr)
        for f in m:
            if f not in res:
                res.append(f)
    return res


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def build(prop, t, work):
    inc = list(BASE_INC)
    defs = t.get("flags", [])
    jobs = []
    libs = ["-lpthread"]
    if t.get("g4"):
        inc.append(f"-I{HERE}/antlr")
    if t.get("shim", False):
        inc.append(f"-I{HERE}/shim")
        libs = ["-lpthread"]
    for d in t.get("inc", []):
        inc.append(f"-I{HERE}/{d}")
    gen = os.path.join(work, "gen")
    os.makedirs(gen)
    for grammar, ns in t.get("g4", []):
        r = run([sys.executable, f"{HERE}/tools/g4.py",
                 f"{REPO}/mpact/sim/{grammar}", gen, ns])
        if r.returncode:
            print(r.stdout)
            return None
    inc += [f"-I{gen}", f"-I{REPO}"]
    extra = []
    if t.get("proto", False):
        r = run(["protoc", f"-I{REPO}", f"--cpp_out={gen}",
                 f"{REPO}/mpact/sim/proto/component_data.proto"])
        if r.returncode:
            print(r.stdout)
            return None
        extra.append(os.path.join(gen, "mpact/sim/proto/component_data.pb.cc"))
        libs.insert(0, "-lprotobuf")
    srcs = [(s, False) for s in sources(t.get("sources", []))]
    if t.get("shim", False):
        extra.append(f"{HERE}/shim/src/absl_bridge.cc")
    for s in t.get("support", []):
        extra.append(f"{HERE}/{s}")
    srcs += [(s, True) for s in extra]
    srcs += [(f"{HERE}/harness/mc.cc", True)]
    harness = t["harness"] if isinstance(t["harness"], list) else [t["harness"]]
    for h in harness:
        srcs.append((f"{HERE}/harness/{h}", True))

    def compile_one(i, s):
        o = os.path.join(work, f"o{i}_{os.path.basename(s)}.o")
        common = COMMON
        if t.get("src_san") and s.startswith(REPO + "/"):
            # Instrumented for the harness's own hooks (harness/sched).
            common = [f for f in COMMON if f != "-fsanitize=address"]
            common.append("-fsanitize=" + t["src_san"])
        r = run([CXX, *common, *defs, *inc, "-c", s, "-o", o])
        return s, o, r

    objs, failed = [], []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # Longest first: the harness.
        order = sorted(range(len(srcs)),
                       key=lambda i: -os.path.getsize(srcs[i][0]))
        futs = [ex.submit(compile_one, i, srcs[i][0]) for i in order]
        for f in futs:
            s, o, r = f.result()
            if r.returncode:
                failed.append((s, r.stdout))
            else:
                objs.append((s, o))
    must = {s for s, m in srcs if m}
    for s, out in failed:
        print(f"compile failed: {s}\n{out[:4000]}")
    if any(s in must for s, _ in failed):
        return None
    # Repository sources go through an archive so that only what the harness
    # needs is linked.
    lib = os.path.join(work, "librepo.a")
    repo_objs = [o for s, o in objs if s not in must]
    own = [o for s, o in objs if s in must]
    link = list(own)
    if repo_objs:
        r = run(["ar", "rcs", lib, *repo_objs])
        if r.returncode:
            print(r.stdout)
            return None
        link.append(lib)
    absl = ["-l" + os.path.basename(p)[3:-3]
            for p in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))]
    exe = os.path.join(work, "harness")
    r = run([CXX, "-fsanitize=address", *defs, *link, "-Wl,--as-needed", *absl,
             *t.get("libs", []), *libs, "-o", exe])
    if r.returncode:
        print("link failed:\n" + r.stdout[:4000])
        return None
    return exe


def generate(exe, t, work, tier):
    """Runs the generator on every enumerated description (in the harness) and
    compiles what it generated; descriptions whose code does not compile are
    recorded for the explorer to judge."""
    d = os.path.join(work, "generated")
    os.makedirs(d)
    r = subprocess.run([exe, "--generate", d, "--tier", tier])
    if r.returncode:
        return False
    shutil.copy(f"{HERE}/harness/{t['prelude']}", os.path.join(d, "prelude.h"))
    cc = [CXX, "-std=c++17", "-O0", "-w", "-fPIC", "-fno-strict-aliasing",
          "-ferror-limit=0", "-ftrivial-auto-var-init=pattern",
          "-include", "cstdint", f"-I{HERE}/genrt", *t.get("gen_inc", [])]

    def one(c):
        so = c[:-3] + ".so"
        r = run([*cc, "-shared", c, "-o", so], cwd=d)
        if r.returncode == 0:
            return []
        # Find the descriptions that do not compile and leave them out.
        bad = {}
        while True:
            new = {}
            for l in r.stdout.splitlines():
                m = re.search(r"d_(\d+)\.inc:\d+:\d+: (?:fatal )?error: (.*)", l)
                if m and m.group(1) not in new:
                    new[m.group(1)] = m.group(0)[:300]
            new = {k: v for k, v in new.items() if k not in bad}
            if not new:
                print(r.stdout[:2000])
                break
            bad.update(new)
            lines = [l for l in open(c) if not (
                l.startswith('#include "d_') and
                l.split("d_")[1].split(".")[0] in new)]
            open(c, "w").writelines(lines)
            r = run([*cc, "-shared", c, "-o", so], cwd=d)
            if r.returncode == 0:
                break
        return list(bad.items())

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        bad = [b for bs in ex.map(one, sorted(glob.glob(d + "/chunk_*.cc")))
               for b in bs]
    with open(os.path.join(d, "status_8"), "w") as f:
        for i, msg in bad:
            f.write(f"nocompile {i} {msg}\n")
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scenario", default="")
    ap.add_argument("--replay", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--cap", default="")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t = TARGETS[a.prop]
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"verif_{a.prop}_")
    try:
        exe = build(a.prop, t, work)
        if exe is None:
            print(f"ERROR property={a.prop} the check could not be built")
            return 2
        if t.get("prelude") and not generate(exe, t, work, tier):
            print(f"ERROR property={a.prop} the generator could not be run")
            return 2
        tb = time.time()
        print(f"built in {tb - t0:.1f} s", file=sys.stderr)
        if a.replay:
            v = json.load(open(a.replay))
            spec = v["scenario"] + ":" + ",".join(map(str, v["choices"]))
            r = subprocess.run([exe, "--replay", spec, "--dir", work,
                                "--tier", tier])
            return r.returncode
        viol = os.path.join(evdir, f"{a.prop}.violation.json")
        if os.path.exists(viol):
            os.unlink(viol)
        out = os.path.join(work, "result.json")
        cap = a.cap or ("640" if tier == "quick" else "0")
        cmd = [exe, "--out", out, "--violation", viol, "--tier", tier,
               "--jobs", str(min(8, os.cpu_count() or 8)), "--dir", work,
               "--cap", cap]
        if a.scenario:
            cmd += ["--scenario", a.scenario]
        r = subprocess.run(cmd)
        ev = {"property": a.prop, "tier": tier,
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": t.get("level", "model_checking")}
        if r.returncode == 1 and os.path.exists(viol):
            v = json.load(open(viol))
            ev["coverage"] = {"states": 0, "transitions": 0,
                              "traces_validated_against_impl": 0,
                              "samples": [v["trace"][:2000]],
                              "explanation": "stopped at the first violation: "
                              + v["message"]}
            ev["violations"] = 1
            ev["wall_s"] = round(time.time() - t0, 2)
            json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"),
                      indent=1)
            print(f"violated: {v['message']}")
            print(v["trace"])
            print(f"VIOLATION property={a.prop} replay={viol}")
            return 1
        if r.returncode != 0:
            print(f"ERROR property={a.prop} harness exit {r.returncode}")
            return 3
        res = json.load(open(out))
        known = json.load(open(os.path.join(HERE, "known_findings.json")))
        listed = {k["id"]: k for k in known.get("findings", [])}
        for k in res["known"]:
            if k not in listed:
                print(f"ERROR property={a.prop}: {k} is not a listed finding")
                return 3
            print(f"KNOWN-FINDING: property={a.prop} {listed[k]['what']}")
        ev["coverage"] = {
            "states": res["states"], "transitions": res["transitions"],
            "traces_validated_against_impl": res["runs"],
            "checks": res["checks"], "samples": res["samples"],
            "distinct_outcomes": res["outcomes"],
            "outcome_samples": res["outcome_samples"],
            "scenarios": res["scenarios"], "bounds": res["bounds"],
            "pruned": res["pruned"],
            "exhaustive": res["exhaustive"]}
        ev["assumptions"] = res["assumptions"]
        ev["violations"] = 0
        ev["wall_s"] = round(time.time() - t0, 2)
        json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
        print(f"OK property={a.prop} tier={tier} runs={res['runs']} "
              f"states={res['states']} transitions={res['transitions']} "
              f"checks={res['checks']} exhaustive={res['exhaustive']} "
              f"wall={ev['wall_s']}s")
        return 0
    finally:
        if a.keep:
            print("kept " + work, file=sys.stderr)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
