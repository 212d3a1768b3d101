#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]   or   check.py replay FILE

Builds the explorers from /repo's working tree, runs every suite of the property, writes
evidence/<PROPERTY>.json and prints the verdict.  Exit 0: held.  1: violated.  2: machinery error.
"""
import fcntl, hashlib, json, os, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
# which explorers serve a property (seq: the real crate and its real dependencies; conc: the same
# sources with explorer-controlled atomics and fork-join; client: generated client programs)
BINS = {
    "E01": ["seq", "conc"], "E02": ["seq"], "E03": ["seq"], "E04": ["conc"], "E05": ["seq", "conc"],
    "S01": ["seq"], "S02": ["seq"], "S03": ["seq"], "S04": ["seq"], "S05": ["conc"],
    "J01": ["seq"], "J02": ["conc"], "J03": ["seq"],
    "R01": ["seq", "conc"], "R02": ["seq"], "R03": ["seq"],
    "Y01": ["seq", "conc"], "Y02": ["seq"], "Y03": ["seq", "conc"], "Y04": ["conc"],
    "W01": ["seq"], "W02": ["seq"], "W03": ["seq"], "W04": ["conc"],
    "A01": ["seq"], "T01": ["client"],
}
EXPLAIN = {
    "code": "Stateless exploration of the real code: every choice vector of every space below was executed on goggles built from /repo's working tree (commit %s plus any uncommitted change) and compared with the reference model or rule step by step; there is no separate model, so every trace is a trace of the implementation.",
    "client": "Explicit exploration of a model of client programs (which references are live, what may cross threads): every program of every space below was enumerated with the model's verdict and compiled against goggles built from /repo's working tree (commit %s plus any uncommitted change); each model trace was thereby validated against the signatures and auto traits the implementation really has.",
}
ASSUME = {
    "code": [
        "bounds are those in each space's rule; values outside the stated alphabets are not exercised",
        "atomics are explored as sequentially consistent interleavings; the orderings passed to them are not modelled",
    ],
    "client": [
        "bounds are those in each space's rule; operations outside the stated menus are not exercised",
        "rustc's borrow and trait checking decides correctly whether a program is accepted",
    ],
}
QUICK_S, THOROUGH_S = 240.0, 3000.0


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def build(name):
    d = os.path.join(H, name)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        die("building %s against /repo failed" % name)
    return os.path.join(d, "target", "release", name)


def commit():
    try:
        return subprocess.run(["git", "-C", "/repo", "rev-parse", "--short", "HEAD"],
                              capture_output=True, text=True).stdout.strip()
    except Exception:
        return "?"


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        with open(sys.argv[2]) as f:
            label = f.readline().strip()
        prop = label.split("/")[0]
        rc = 2
        for b in BINS[prop]:
            if b == "client":
                import client
                sys.exit(client.replay(sys.argv[2]))
            rc = subprocess.run([build(b), "replay", sys.argv[2]]).returncode
            if rc != 2:
                break
        sys.exit(rc)
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spaces, violation = [], None
    budget = THOROUGH_S if thorough else QUICK_S
    bins = BINS[prop]
    with tempfile.TemporaryDirectory(prefix="gogmc-") as tmp:
        for b in bins:
            if b == "client":
                sys.path.insert(0, VERIF)
                import client
                res = client.run(thorough, tmp)
            else:
                exe = build(b)
                out = os.path.join(tmp, b + ".json")
                cmd = [exe, "run", "--prop", prop, "--out", out, "--deadline", str(budget / len(bins)), "--seed", str(seed), "-v"]
                if thorough:
                    cmd.append("--thorough")
                p = subprocess.run(cmd)
                if p.returncode != 0 or not os.path.exists(out):
                    die("explorer %s ended with status %s" % (b, p.returncode))
                with open(out) as f:
                    res = json.load(f)
            spaces += res["spaces"]
            if res["violation"]:
                violation = res["violation"]
                break
    write_evidence(prop, thorough, seed, spaces, violation, time.time() - t0)
    for s in spaces:
        if not s["complete"]:
            print("NOTE: %s was cut off by the time budget; what it covered is in the evidence" % s["label"])
    if violation:
        os.makedirs(REPLAYS, exist_ok=True)
        body = violation["label"] + "\n" + " ".join(map(str, violation["choices"])) + (" @%d" % violation["fresh"] if violation.get("fresh") else "") + "\n"
        h = hashlib.sha1(body.encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, "%s-%s.txt" % (prop, h))
        with open(path, "w") as f:
            f.write(body + "# " + violation["msg"] + "\n")
            for t in violation["trace"]:
                f.write("# " + t.replace("\n", "\n# ") + "\n")
            f.write("# replay with: python3 /verif/check.py replay %s\n" % path)
        print("  what: " + violation["msg"])
        for t in violation["trace"][-60:]:
            print("    " + t)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    tot = sum(s["executions"] for s in spaces)
    if tot == 0:
        die("nothing was explored")
    print("OK %s: %d %s in %d spaces, %d distinct states, %d transitions, %.1fs" % (
        prop, tot, "client programs compiled" if prop == "T01" else "executions of the real code", len(spaces), sum(s["distinct_states"] for s in spaces), sum(s["transitions"] for s in spaces), time.time() - t0))


def write_evidence(prop, thorough, seed, spaces, violation, wall):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    samples = []
    for s in spaces:
        for x in s["samples"]:
            samples.append({"space": s["label"], "execution": x})
    execs = sum(s["executions"] for s in spaces)
    doc = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(s["distinct_states"] for s in spaces),
            "states_visited_on_all_paths": sum(s["states_visited"] for s in spaces),
            "transitions": sum(s["transitions"] for s in spaces),
            "traces_validated_against_impl": execs - sum(s["redundant"] for s in spaces),
            "executions": execs,
            "executions_cut_by_partial_order_reduction": sum(s["redundant"] for s in spaces),
            "exhaustive": bool(spaces) and all(s["complete"] for s in spaces) and not violation,
            "explanation": EXPLAIN["client" if prop == "T01" else "code"] % commit(),
            "spaces": [{k: s[k] for k in ("label", "rule", "executions", "redundant", "states_visited", "distinct_states", "transitions", "outcomes", "max_depth", "complete", "wall_s")} for s in spaces],
            "samples": samples[:12],
        },
        "assumptions": ASSUME["client" if prop == "T01" else "code"],
        "wall_s": round(wall, 3),
        "violations": 1 if violation else 0,
    }
    tmp = os.path.join(ev, "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(tmp, os.path.join(ev, prop + ".json"))


main()
