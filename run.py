#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   decide a property
   run.py replay <file>               run a recorded violation again
   run.py setup                       build what the checks need

Exit 0: everything explored is a behaviour of the specification.
Exit 1: a line VIOLATION property=<id> replay=<file>.
Exit 2: the check itself could not be carried out."""
import hashlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import drive, gens, enc

def replay_dir():
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    return d

def cut(sess, prog):
    """the session up to the operation that was not accepted"""
    k = prog // 100000
    if sess["mode"] == "total" or k <= 0: return sess
    return dict(sess, ops=sess["ops"][:k])

def strip(sess):
    return dict(sess, ops=[{a: b for a, b in o.items() if a not in ("res", "ev")} for o in sess["ops"]])

def report(prop, sess, prog, sc, how="trace"):
    """writes the replay file and the explanation; returns the path"""
    x = cut(sess, prog)
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps(strip(x)).replace(sc.root, "").encode()).hexdigest()[:12])
    path = os.path.join(replay_dir(), name)
    try:
        why = drive.explain(x, sc)
    except Exception as e:
        why = str(e)
    with open(path, "w") as fh:
        json.dump({"property": prop, "how": how, "root": sc.root, "session": strip(x), "recorded": x, "why": why}, fh)
    if x["mode"] == "total":
        show = [o for o in x["ops"] if o["res"]["o"] not in ("ok", "err", "none", "skip")][:3]
    else:
        show = x["ops"][-4:]
    for o in show: print("    " + enc.show_op(o)[:1500])
    print("    " + why.strip()[:1500].replace("\n", "\n    "))
    return path

def replay(path):
    d = json.load(open(path))
    b = drive.build()
    try:
        sc = drive.Scratch(d["root"])
    except FileExistsError:
        sc = drive.Scratch()
    with sc:
        x = d["session"]
        drive.parallel_execute(b, [x], sc)
        rej, _ = drive.check([x], sc)
        for o in x["ops"]: print(enc.show_op(o)[:1500])
        if rej:
            print(drive.explain(x, sc)[:3000])
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
    return 0

def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("TV_BUDGET", "0" if tier == "quick" else "600"))
    b = drive.build()
    total = drive.Stats()
    import mc, laws
    cov = {"operations": 0, "renders": 0, "host_calls_checked": 0, "outcomes": {}}
    samples, found, part, distinct = [], [], 0, set()
    with drive.Scratch() as sc:
        while True:
            S = gens.gen(prop, seed, part, sc.fs)
            before = [hashlib.sha1(json.dumps(x["ops"]).encode()).digest() for x in S]
            distinct.update(before)
            drive.parallel_execute(b, S, sc)
            for x in S:
                for o in x["ops"]:
                    cov["operations"] += 1
                    if o["op"] in ("render", "front"):
                        cov["renders"] += 1
                        cov["host_calls_checked"] += len(o["ev"]) if "ev" in o else 0
                    key = o["op"] + ":" + o["res"]["o"]
                    cov["outcomes"][key] = cov["outcomes"].get(key, 0) + 1
            rej, st = drive.check(S, sc)
            total.states += st.states; total.generated += st.generated; total.gaveup += st.gaveup; total.traces += st.traces
            if part == 0:
                for k in (0, len(S) // 2, len(S) - 1):
                    x = S[k]
                    samples.append({"session": x["id"], "operations": [enc.show_op(o)[:600] for o in x["ops"][:8]]})
            for x, p in rej[:3]:
                found.append(report(prop, x, p, sc))
            part += 1
            if rej or time.time() - t0 > budget: break
        if not found:
            mcs = mc.run(prop, tier, seed, b, sc, max(0, budget - (time.time() - t0)))
            if not mcs.rejected: laws.run(prop, tier, b, sc, mcs)
            for k, v in mcs.cov.items(): cov[k] = v
            total.states += mcs.states; total.generated += mcs.generated; total.traces += mcs.replayed
            samples += mcs.samples
            for x, p in mcs.rejected[:3]:
                found.append(report(prop, x, p, sc, "model"))
    cov.update({"states": total.states, "transitions": total.generated, "traces_validated_against_impl": total.traces,
                "distinct_sessions": len(distinct), "sessions_given_up": total.gaveup, "samples": samples})
    level = "model_checking"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": ["TLC evaluates the specification correctly", "the harness reports what the library returned",
                                   "errors are compared as errors, not by message"],
                   "wall_s": round(time.time() - t0, 1), "violations": len(found)}, fh, indent=1)
    for p in found: print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s %s: %d sessions, %d states, %.0f s" % (prop, "rejected" if found else "held", total.traces, total.states, time.time() - t0))
    return 1 if found else 0

def main(a):
    try:
        if a[:1] == ["setup"]:
            drive.build(); return 0
        if a[:1] == ["replay"]: return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        try:
            return run(a[0], tier)
        except (drive.Trouble, OSError) as e:      # once more, in case something passing was in the way
            sys.stderr.write("trying again: %s\n" % str(e)[-1500:])
            time.sleep(2)
            return run(a[0], tier)
    except Exception as e:
        sys.stderr.write("the check could not be carried out: %s\n" % e)
        return 2
if __name__ == "__main__":
    sys.stdout.reconfigure(errors="backslashreplace"); sys.stderr.reconfigure(errors="backslashreplace")
    sys.exit(main(sys.argv[1:]))
