"""check <property>: decides one property on /repo's current tree."""
import json, os, random, re, shutil, sys, time, traceback
from engine import *
import scenarios as S
import models as M

STRICT_TOO = {"C14"}
TWO_PROCESSES = {"C06", "C25"}


def validate(prop, trace, work, strict=False):
    """TLC judges the recorded scenarios: (rejections, known, states generated, distinct states)"""
    known = [k for k, (p, _) in findings().items()]
    consts = {"Property": '"%s"' % prop, "Strict": "TRUE" if strict else "FALSE", "Known": tla_set(known)}
    rc, out = tlc("Trace", consts, os.path.join(work, "tlc"), ["Accepted"], {"TRACE": trace})
    gen, distinct = stats(out)
    rejected = re.findall(r'^"REJECT (\S+) (\d+) (.*)"$', out, re.M)
    kn = re.findall(r'^"KNOWN (\S+) (\S+)"$', out, re.M)
    if rc not in (0, 12) or (rc == 12) != bool(rejected):
        open(os.path.join(BUILD, "tlc-error-%s.txt" % prop), "w").write(out)
        raise ToolError("TLC failed (exit code %d):\n%s" % (rc, out[-3000:]))
    return rejected, kn, gen, distinct


def main(argv):
    prop = argv[0]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(BUILD, "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        return decide(prop, tier, seed, work, t0)
    except ToolError as e:
        print("ERROR", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def violation(prop, work, scen, what, strict):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    json.dump({"property": prop, "what": what, "strict": strict, "scenario": scen}, open(path, "w"))
    print(what)
    print("VIOLATION property=%s replay=%s" % (prop, path))


def decide(prop, tier, seed, work, t0):
    build_java()
    # 1. the specification itself, and histories generated from it
    model = M.check(prop, tier, work)
    scens = model["scenarios"] + S.generate(prop, seed, tier)
    if tier == "thorough":
        missed = M.deviations(prop, work)
        if missed:
            raise ToolError("deviations of the specification that it does not notice: %s" % missed)
    # 2. the implementation runs them
    runs = []
    for strict in [False] + ([True] if prop in STRICT_TOO else []):
        binary = build_harness(strict)
        trace, crashes = execute(binary, scens, work, "strict" if strict else "trace")
        if prop in TWO_PROCESSES:
            trace = join_processes(binary, scens, trace, work)
        if not strict:
            crashes += in_release(scens, trace, work)
        runs.append((strict, trace, crashes))
    # 3. TLC judges what it did
    states, transitions, traces, events, bad, known = model["states"], model["transitions"], 0, 0, 0, {}
    byid = {s["id"]: s for s in scens}
    ops = {}
    for strict, trace, crashes in runs:
        rejected, kn, gen, distinct = validate(prop, trace, work, strict)
        n = e = 0
        for line in open(trace):
            r = json.loads(line)
            n += 1
            e += len(r["ev"])
            for x in r["ev"]:
                ops[x["op"]] = ops.get(x["op"], 0) + 1
        for k, sid in kn:
            known.setdefault(k, set()).add(sid)
        states += distinct
        transitions += gen
        traces += n
        events += e
        if rejected:
            sid, at, what = rejected[0]
            bad += 1
            violation(prop, work, byid.get(sid.removesuffix("~release"), {"id": sid}), "scenario %s, event %s: %s" % (sid, at, what), strict)
            break
        if distinct != e + n:
            raise ToolError("TLC explored %d states, the traces have %d" % (distinct, e + n))
    fs = findings()
    for k in sorted(known):
        if fs[k][0] == prop:
            print("KNOWN-FINDING: property=%s %s (%d scenarios of this run): %s" % (prop, k, len(known[k]), fs[k][1]))
    r = random.Random(seed)
    samples = [s for s in r.sample(scens, min(40, len(scens))) if len(json.dumps(s)) < 3000][:5]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces, "samples": samples,
                       "events_judged": events, "operations": ops, "scenarios_from_specification": len(model["scenarios"]),
                       "scenarios_random_and_boundary": len(scens) - len(model["scenarios"]), "model": model["summary"],
                       "exhaustive": False},
          "assumptions": ["the primitives MD4, MD5, HMAC-MD5, DES, RC4 and upper-casing of the JDK (java/NtlmPrims.java) are right",
                          "TLC, the harness' recording and the cfg(http_ntlm_verif) hooks are right"],
          "wall_s": round(time.time() - t0, 2), "violations": bad}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d traces, %d events, %d states, %.1f s" % (prop, traces, events, states, time.time() - t0))
    return 1 if bad else 0


def in_release(scens, trace, work):
    """every fourth scenario, also on the crate as built for release (optimised, without debug assertions
    and overflow checks); its records go to the end of the trace"""
    some = [dict(s, id=s["id"] + "~release") for s in scens[::4]]
    t, crashes = execute(build_harness(release=True), some, work, "release")
    with open(trace, "a") as f, open(t) as g:
        shutil.copyfileobj(g, f)
    return crashes


def join_processes(binary, scens, trace, work):
    """C06, C25: what four processes did, as one history; three of them in the same surroundings
    (clocks that stand still, process number, addresses), the last one with the scenarios in another order"""
    def run(name, l, still):
        t, _ = execute(binary, l, work, name, still=still)
        return {r["id"]: r["ev"] for r in map(json.loads, open(t))}
    others = [run("third", scens, True), run("fourth", scens, True), run("fifth", scens[1:] + scens[:1], True)]
    out = os.path.join(work, "joined.ndjson")
    with open(out, "w") as f:
        for a in map(json.loads, open(trace)):
            f.write(json.dumps({"id": a["id"], "ev": a["ev"] + [e for o in others for e in o.get(a["id"], [])]}) + "\n")
    return out
