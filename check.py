#!/usr/bin/env python3
"""check.py <property-id>: decide one property on /repo's current working tree.

1. deductive part (dv/): contracts on the code extracted from /repo, every obligation to z3;
2. replay part (replay/): drives the real code to find a failing input for a failed
   obligation, and stands in (bounded, labelled) for what is not under contract.
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import json, os, re, subprocess, sys, tempfile, time, shutil

try:
    import z3
except ImportError:
    if not os.environ.get("DV_REEXEC") and shutil.which("python3-vt"):
        os.environ["DV_REEXEC"] = "1"
        os.execvp("python3-vt", ["python3-vt"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DV_REPO", "/repo")
DRIVER = {"C01": "d_seq", "C02": "d_seq", "C03": "d_seq", "C04": "d_seq", "C05": "d_seq", "C06": "d_heap", "C07": "d_heap",
          "C08": "d_heap", "C09": "d_string", "C10": "d_string", "C11": "d_list", "C12": "d_list", "C13": "d_list", "C14": "d_list",
          "C15": "d_seq", "C16": "d_seq", "C17": "d_seq", "C18": "d_tree", "C19": "d_tree", "C20": "d_tree", "C21": "d_tree",
          "C22": "d_tree", "C23": "d_tree", "C24": "d_sma", "C25": "d_sma", "C26": "d_sma", "C27": "d_misc", "C28": "d_misc"}
CXX = ["clang++", "-std=c++11", "-g1", "-O1", "-w", "-fsanitize=address,undefined",
       "-fno-sanitize=null,vptr,object-size,pointer-overflow", "-fno-sanitize-recover=all"]


def run_driver(prop, tier, seed, out_dir, seconds, workers, tmp):
    """Returns (violation or None, coverage dict)."""
    drv = DRIVER[prop]
    exe = os.path.join(tmp, drv)
    p = subprocess.run(CXX + ["-I" + REPO, os.path.join(HERE, "replay", drv + ".cpp"), "-o", exe],
                       capture_output=True, text=True)
    if p.returncode != 0:
        os.makedirs(out_dir, exist_ok=True)
        dst = os.path.join(out_dir, "replay_%s.txt" % prop)
        with open(dst, "w") as f: f.write("what the public interface of /repo no longer compiles with the property's driver\ncommand %s -I%s replay/%s.cpp\n%s" % (" ".join(CXX), REPO, drv, p.stderr[:6000]))
        return (dst, "the property's driver does not compile against the public interface"), {"driver": drv, "built": False, "build_error": p.stderr[-2000:]}
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
    procs = []
    for w in range(workers):
        mode = "exh" if w == 0 else "rand"
        rep = os.path.join(tmp, "replay%d.txt" % w)
        log = open(os.path.join(tmp, "log%d.txt" % w), "w")
        procs.append((mode, rep, log, subprocess.Popen([exe, prop, mode, str(seconds), str(seed * 100 + w), rep], stdout=log, stderr=subprocess.STDOUT, env=env)))
    runs = ops = 0
    complete = {}
    samples = []
    viol = None
    for w, (mode, rep, log, pr) in enumerate(procs):
        try:
            rc = pr.wait(timeout=seconds * 3 + 60)
        except subprocess.TimeoutExpired:
            pr.kill(); pr.wait(); rc = -99
        log.close()
        text = open(log.name, errors="replace").read()
        for m in re.finditer(r"^COMPLETE scenario=(\S+) length=(\d+)", text, re.M):
            complete[m.group(1)] = max(complete.get(m.group(1), 0), int(m.group(2)))
        for m in re.finditer(r"^SAMPLE (.*)", text, re.M):
            if len(samples) < 6:
                samples.append(m.group(1)[:300])
        m = re.search(r"^DONE runs=(\d+) ops=(\d+)", text, re.M)
        if m:
            runs += int(m.group(1)); ops += int(m.group(2))
        if rc == 1 and os.path.exists(rep) and viol is None:
            os.makedirs(out_dir, exist_ok=True)
            dst = os.path.join(out_dir, "replay_%s.txt" % prop)
            body = open(rep, errors="replace").read()
            with open(dst, "w") as f:
                f.write(body)
                f.write("command clang++ (flags in check.py) replay/%s.cpp && ./%s %s replay 0 0 /dev/null %s\n" % (drv, drv, prop, dst))
                f.write("--- driver output ---\n" + text[-4000:])
            mm = re.search(r"^what (.*)", body, re.M)
            viol = (dst, mm.group(1) if mm else "failing history")
    return viol, {"driver": drv, "built": True, "histories": runs, "operations": ops, "exhaustive_to_length": complete, "samples": samples, "seconds": seconds, "workers": workers}


def known(prop):
    """Known findings recorded in KNOWN_FINDINGS.txt (never written here)."""
    out = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="dv_%s_" % prop)
    out_dir = os.path.join(HERE, "evidence", "replay")
    rc = 0
    try:
        sys.path.insert(0, HERE)
        proof = {"available": False}
        try:
            from dv import prove
            proof = prove.run(prop, tier, tmp)
        except ImportError as e:
            proof = {"available": False, "note": str(e)}
        secs = 7 if tier == "quick" else 120
        if proof.get("failed"):
            secs = max(secs, 20)
        elif proof.get("undecided"):
            secs = max(secs, 40)          # the bounded stand-in looks longer where the proof did not go through
        viol, cov = run_driver(prop, tier, seed, out_dir, secs, 4 if tier == "quick" else 8, tmp)
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        violations = 0
        if viol:
            rc = 1; violations = 1
            print("failing input found: %s" % viol[1])
            print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        elif proof.get("failed"):
            rc = 1; violations = 1
            os.makedirs(out_dir, exist_ok=True)
            dst = os.path.join(out_dir, "obligations_%s.txt" % prop)
            with open(dst, "w") as f:
                for o in proof["failed"]:
                    f.write("FAILED OBLIGATION %s\n" % o["name"])
                    f.write(o.get("detail", "") + "\n")
            print("failed obligations: %s" % "; ".join(o["name"] for o in proof["failed"][:5]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, dst))
        ev = {"property": prop, "tier": tier, "seed": seed, "violations": violations}
        if proof.get("available"):
            ev["level"] = "proof"
            ev["coverage"] = dict(proof["coverage"])
            ev["coverage"]["bounded_stand_in"] = cov
            ev["assumptions"] = proof.get("assumptions", [])
        else:
            ev["level"] = "exploration"
            ev["coverage"] = {"evaluations": cov.get("histories", 0), "distinct_nontrivial": cov.get("histories", 0),
                              "rule": "operation histories on the real containers, compared with an ideal model after every operation", "samples": cov.get("samples", []), "driver": cov}
        ev["wall_s"] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if rc == 0:
            print("property %s held (%s), %.1f s" % (prop, ev["level"], ev["wall_s"]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
