"""The specification's own models: TLC explores them exhaustively within the constants given here,
checks the invariants, and prints their behaviours as scenarios for the real crate."""
import json, os, re
from engine import *

ALL = (0, 1, 2, 3, 4, 5)
V1 = (0, 1, 2)
V2 = (3, 4, 5)

# property -> [(model, levels, depth)] of Handshake.tla, quick and (in addition or deeper) thorough
HANDSHAKE = {
    "C01": ([("words", ALL, 5), ("wordstwo", (1, 3), 4), ("wordsmore", (2, 5), 4), ("again", ALL, 0), ("renegotiate", ALL, 0), ("often", (2, 4), 300), ("twins", (2, 3), 0)],
            [("words", ALL, 6), ("wordstwo", ALL, 5), ("wordsmore", ALL, 5), ("again", ALL, 0), ("renegotiate", ALL, 0), ("often", ALL, 1000), ("twins", ALL, 0)]),
    "C02": ([("infos", (3,), 2), ("passwords", (4,), 0), ("names", (5,), 0), ("again", V2, 0), ("words", (3,), 4), ("corners", (3,), 0), ("clocks", (3,), 0), ("twins", (5,), 0)],
            [("infos", V2, 3), ("passwords", V2, 0), ("names", V2, 0), ("again", V2, 0), ("words", V2, 5), ("flags", V2, 0), ("bits", V2, 0), ("corners", V2, 0), ("renegotiate", V2, 0), ("clocks", V2, 0), ("twins", V2, 0)]),
    "C03": ([("passwords", V1, 0), ("again", V1, 0), ("flags", V1, 0), ("corners", (1,), 0), ("twins", (0, 2), 0)],
            [("passwords", V1, 0), ("again", V1, 0), ("flags", V1, 0), ("bits", V1, 0), ("words", V1, 5), ("names", V1, 0), ("corners", V1, 0), ("twins", V1, 0)]),
    "C04": ([("flags", ALL, 0), ("again", ALL, 0), ("passwords", (0, 3), 0), ("corners", (0, 4), 0), ("twins", (1, 4), 0)],
            [("flags", ALL, 0), ("again", ALL, 0), ("passwords", ALL, 0), ("words", ALL, 5), ("bits", ALL, 0), ("names", ALL, 0), ("corners", ALL, 0), ("twins", ALL, 0)]),
    "C05": ([("flags", (3, 5), 0), ("words", (4,), 4), ("again", ALL, 0), ("wordsmore", (3,), 4), ("infos", (3,), 1), ("renegotiate", V2, 0), ("corners", (5,), 0), ("clocks", (4,), 0), ("twins", (3, 5), 0)],
            [("flags", ALL, 0), ("words", V2, 5), ("again", ALL, 0), ("wordsmore", V2, 5), ("infos", V2, 3), ("bits", V2, 0), ("names", V2, 0), ("renegotiate", V2, 0), ("corners", V2, 0), ("clocks", V2, 0), ("twins", V2, 0)]),
    "C06": ([("fresh", (1, 4), 12), ("fresh", (3,), 100)], [("fresh", ALL, 40), ("fresh", (0, 3), 200)]),
    "C07": ([("flags", (1, 2, 3), 0), ("bits", (1, 3), 0), ("again", ALL, 0), ("corners", (1, 2, 3), 0), ("renegotiate", (4,), 0), ("twins", (1, 3), 0)],
            [("flags", ALL, 0), ("bits", ALL, 0), ("again", ALL, 0), ("words", ALL, 5), ("corners", ALL, 0), ("renegotiate", ALL, 0), ("twins", ALL, 0)]),
    "C11": ([("names", (0, 3), 0), ("hosts", (3,), 2), ("words", (0, 3), 4), ("wordsmore", (4,), 4), ("flags", (1, 5), 0), ("renegotiate", (1, 3), 0), ("corners", (2,), 0)],
            [("names", ALL, 0), ("hosts", ALL, 3), ("words", ALL, 5), ("wordsmore", ALL, 5), ("flags", ALL, 0), ("bits", ALL, 0), ("infos", V2, 2), ("corners", ALL, 0), ("renegotiate", ALL, 0)]),
    "C12": ([("flags", (0, 2, 3), 0), ("bits", (1, 4), 0), ("wordsmore", (5,), 4), ("names", (0, 3), 0), ("renegotiate", (0, 4), 0), ("corners", (0, 3), 0), ("twins", (2,), 0)],
            [("flags", ALL, 0), ("bits", ALL, 0), ("wordsmore", ALL, 5), ("names", ALL, 0), ("infos", V2, 2), ("again", ALL, 0), ("corners", ALL, 0), ("renegotiate", ALL, 0), ("twins", ALL, 0)]),
    "C16": ([("accounts", (3,), 4), ("hosts", (0,), 3), ("names", (1, 4), 0), ("corners", (2, 5), 0), ("twins", (0,), 0)],
            [("accounts", (0, 3), 5), ("hosts", (1, 4), 4), ("names", ALL, 0), ("corners", ALL, 0), ("twins", ALL, 0)]),
    "C19": ([("flags", (0, 3), 0), ("words", (1, 4), 3)], [("flags", ALL, 0), ("words", ALL, 5), ("passwords", ALL, 0)]),
    "C20": ([("passwords", (0, 1, 3), 0), ("hosts", (2,), 3), ("accounts", (4,), 3), ("names", ALL, 0), ("corners", (0, 3), 0), ("clocks", (5,), 0), ("often", (1,), 300), ("twins", (0, 3), 0)],
            [("passwords", ALL, 0), ("hosts", (2, 5), 4), ("accounts", (0, 4), 5), ("names", ALL, 0), ("corners", ALL, 0), ("clocks", ALL, 0), ("often", ALL, 1000), ("twins", ALL, 0)]),
    "C21": ([("words", ALL, 4), ("wordsmore", (1, 2), 4), ("names", ALL, 0), ("renegotiate", ALL, 0), ("corners", (1, 4), 0), ("beyond", (), 4), ("often", (5,), 300), ("twins", (3,), 0)],
            [("words", ALL, 5), ("wordsmore", ALL, 5), ("names", ALL, 0), ("again", ALL, 0), ("corners", ALL, 0), ("renegotiate", ALL, 0), ("beyond", (), 6), ("often", ALL, 1000), ("twins", ALL, 0)]),
    "C23": ([("strangers", (1, 3), 4), ("lateenv", (0, 4), 4), ("replaced", (1, 2, 5), 0), ("targets", ALL, 0), ("flags", (0, 2, 3), 0), ("wordsmore", (5,), 4), ("infos", (4,), 2), ("renegotiate", (2, 3), 0), ("corners", (0, 5), 0), ("clocks", (2, 4), 0), ("often", (0, 3), 70), ("twins", (1, 4), 0)],
            [("strangers", ALL, 4), ("strangers", (1, 3), 5), ("lateenv", ALL, 5), ("replaced", ALL, 0), ("targets", ALL, 0), ("flags", ALL, 0), ("wordsmore", ALL, 5),
             ("infos", V2, 3), ("bits", ALL, 0), ("names", ALL, 0), ("hosts", (2,), 3), ("accounts", (5,), 4), ("corners", ALL, 0), ("renegotiate", ALL, 0), ("clocks", ALL, 0), ("often", ALL, 300), ("twins", ALL, 0)]),
}

# deviations of the prescribed implementation that TLC must find: (property, model, levels, depth)
DEVIATIONS = {
    "stale-challenge": [("C01", "words", (3,), 5)],
    "last-challenge": [("C01", "words", (3,), 5), ("C01", "words", (0,), 5)],
    "challenge-first": [("C01", "words", (3,), 3)],
    "one-answer": [("C01", "words", (1,), 4)],
    "upper-domain": [("C16", "names", (0,), 0), ("C02", "names", (3,), 0)],
    "ignore-timestamp": [("C02", "infos", (3,), 2)],
    "sort-infos": [("C02", "infos", (3,), 2)],
    "ess-forgotten": [("C03", "flags", V1, 0)],
    "lm-allowed": [("C03", "flags", (1,), 0), ("C07", "flags", (1,), 0)],
    "downgrade": [("C07", "flags", (3,), 0), ("C02", "flags", (3,), 0)],
    "mixed-kek": [("C04", "flags", V1, 0)],
    "exchange-unasked": [("C04", "flags", (0, 3), 0)],
    "mic-early": [("C05", "flags", (3,), 0)],
    "mic-zero": [("C05", "flags", (3,), 0)],
    "mic-without-neg": [("C05", "flags", (3,), 0)],
    "kept-negotiate": [("C05", "wordsmore", (3,), 5), ("C05", "renegotiate", (3,), 0)],
    "reuse-nonce": [("C06", "fresh", (4,), 6)],
    "half-random": [("C06", "fresh", (4,), 6)],
    "counting": [("C06", "fresh", (4,), 6)],
    "key-is-kek": [("C06", "fresh", (1, 4), 6)],
    "trailing": [("C11", "flags", (0,), 0)],
    "flags-dropped": [("C12", "flags", (3,), 0)],
    "version-claimed": [("C12", "flags", (3,), 0)],
    "no-workstation": [("C16", "hosts", (0,), 1)],
    "log-key": [("C19", "flags", (0, 3), 0)],
    "env-late": [("C23", "lateenv", (0, 4), 4)],
    "first-password": [("C23", "strangers", (1, 3), 4)],
    "offer-once": [("C21", "words", (3,), 3), ("C23", "wordsmore", (5,), 4)],
    "offer-lm-ess": [("C21", "words", (0,), 1)],
    "any-level": [("C21", "beyond", (), 4)],
    "seconds-only": [("C02", "clocks", (3,), 0)],
    "seconds-32": [("C02", "clocks", (3,), 0)],
    "stale-time": [("C02", "clocks", (3,), 0)],
    "same-challenge": [("C01", "twins", (3,), 0), ("C05", "twins", (4,), 0), ("C23", "twins", (1,), 0)],
    "checksum-byte": [("C06", "fresh", (4,), 100)],
    "mixed-nonces": [("C06", "fresh", (4,), 200)],
    "seeded-by-clock": [("C06", "fresh", (4,), 6)],
}

# other models: property -> [(module, model, depth)], quick and thorough
OTHER = {
    "C02": ([("Vectors", "", 0)],) * 2, "C03": ([("Vectors", "", 0)],) * 2, "C04": ([("Vectors", "", 0)],) * 2, "C05": ([("Vectors", "", 0)],) * 2,
    "C06": ([("Drawing", "harvest", 0)],) * 2,
    "C08": ([("Coding", "values", 2)], [("Coding", "values", 3)]),
    "C09": ([("Coding", "descs", 0), ("Coding", "mutants", 0)],
            [("Coding", "descs", 0), ("Coding", "mutants", 0), ("Coding", "avforms", 0), ("Coding", "cuts", 0), ("Coding", "overlaps", 0), ("Coding", "layouts", 0)]),
    "C10": ([("Coding", m, 0) for m in ("layouts", "overlaps", "cuts", "mutants", "descs", "avforms")],) * 2,
    "C11": ([("Coding", "values", 1), ("Building", "written", 3)], [("Coding", "values", 3), ("Building", "written", 4)]),
    "C13": ([("Building", "builders", 4), ("Building", "envs", 0)], [("Building", "builders", 5), ("Building", "envs", 0)]),
    "C14": ([("Coding", "words32", 0), ("Coding", "mutants", 0)], [("Coding", m, 0) for m in ("words32", "mutants", "descs", "layouts", "avforms", "cuts")]),
    "C15": ([("Timing", "", 0)],) * 2,
    "C17": ([("Building", "setters", 3)], [("Building", "setters", 5)]),
    "C18": ([("Building", "flags", 3)], [("Building", "flags", 5)]),
    "C24": ([("Building", "sealings", 3)], [("Building", "sealings", 4)]),
    "C25": ([("Drawing", "", 0)],) * 2,
    "C26": ([("Converting", "", 0)],) * 2,
    "C27": ([("Concurrent", "v1", 2), ("Concurrent", "v2", 3), ("Moving", "alone", 0), ("Moving", "two", 0)],
            [("Concurrent", "all", 2), ("Concurrent", "v1", 3), ("Concurrent", "v2", 4), ("Moving", "alone", 1), ("Moving", "two", 0), ("Moving", "two", 2)]),
}
MOVING_LEVELS = [(0, 3), ALL, (2, 5)]      # by depth
CONCURRENT_LEVELS = {"v1": (0, 2), "v2": (1, 3), "all": ALL}
INVARIANTS = {
    "Handshake": ["Accepted", "FirstChallenge", "Printed"],
    "Building": ["Accepted", "ListIsWhatWasAdded", "FieldsAreWhatWasSet", "BitsAreIndependent", "MicSpeaksOfNow", "Printed"],
    "Coding": ["Accepted", "AsExpected", "StrictRefines", "TailIgnored", "Stable", "Readable", "Printed"],
    "Timing": ["Accepted", "StepByStep", "ThereAndBack", "Printed"],
    "Drawing": ["Accepted", "Printed"],
    "Converting": ["Accepted", "VersionsAreBytes", "LmVerifies", "Printed"],
    "Moving": ["Accepted", "Portable", "Printed"],
    "Concurrent": ["Accepted", "Independent", "Printed"],
    "Vectors": [],
}
OTHER_DEVIATIONS = {
    "big-endian": [("C10", "Coding", "layouts", 0)],
    "fixed-offset": [("C10", "Coding", "layouts", 0)],
    "any-version": [("C10", "Coding", "mutants", 0)],
    "no-surrogates": [("C10", "Coding", "layouts", 0), ("C08", "Coding", "values", 1)],
    "no-terminator": [("C10", "Coding", "mutants", 0)],
    "strict-lax": [("C14", "Coding", "words32", 0)],
    "lax-strict": [("C14", "Coding", "words32", 0)],
    "panic-on-range": [("C09", "Coding", "descs", 0)],
    "absent-offset": [("C11", "Coding", "values", 1)],
    "short-max": [("C11", "Coding", "values", 1)],
    "lossy-names": [("C08", "Coding", "values", 1), ("C11", "Building", "written", 3)],
    "flag-sticks": [("C17", "Building", "setters", 3)],
    "wrong-flag": [("C17", "Building", "setters", 3)],
    "flags-reset": [("C17", "Building", "setters", 3)],
    "two-terminators": [("C13", "Building", "builders", 3)],
    "prepend": [("C13", "Building", "builders", 3)],
    "replace": [("C13", "Building", "builders", 3)],
    "toggle": [("C18", "Building", "flags", 3)],
    "clear-all": [("C18", "Building", "flags", 3)],
    "names-ascending": [("C18", "Building", "flags", 3)],
    "micros": [("C15", "Timing", "", 0)],
    "wrap-around": [("C15", "Timing", "", 0)],
    "never-before-1970": [("C15", "Timing", "", 0)],
    "mic-over-mic": [("C24", "Building", "sealings", 3)],
    "mic-cleared": [("C24", "Building", "sealings", 3)],
    "mic-order": [("C24", "Building", "sealings", 3)],
    "checksum-byte": [("C25", "Drawing", "", 0)],
    "no-zeros": [("C25", "Drawing", "", 0), ("C06", "Drawing", "harvest", 0)],
    "bit-biased": [("C25", "Drawing", "", 0), ("C06", "Drawing", "harvest", 0)],
    "no-byte-twice": [("C25", "Drawing", "", 0), ("C06", "Drawing", "harvest", 0)],
    "follows": [("C25", "Drawing", "", 0)],
    "values-return": [("C25", "Drawing", "", 0), ("C06", "Drawing", "harvest", 0)],
    "tail-repeats": [("C25", "Drawing", "", 0)],
    "same-draws": [("C25", "Drawing", "", 0)],
    "short-draw": [("C25", "Drawing", "", 0)],
    "halves-repeat": [("C25", "Drawing", "", 0)],
    "any-revision": [("C26", "Converting", "", 0)],
    "hash-first": [("C26", "Converting", "", 0)],
    "shared-key": [("C27", "Concurrent", "v2", 2)],
    "thread-negotiate": [("C27", "Moving", "alone", 0)],
    "thread-challenge": [("C27", "Moving", "two", 2)],
}


def entries(prop, tier):
    """[(module, model, levels, depth)]"""
    i = 0 if tier == "quick" else 1
    return [("Handshake", m, l, d) for m, l, d in HANDSHAKE.get(prop, ((), ()))[i]] + [(mod, m, (), d) for mod, m, d in OTHER.get(prop, ((), ()))[i]]


def run_model(prop, module, model, levels, depth, work, deviation="", export=True, strict=False):
    if module == "Vectors":
        return tlc("Vectors", {}, os.path.join(work, "model-vectors"))
    consts = {"Property": '"%s"' % prop, "Strict": "TRUE" if strict else "FALSE", "Known": "{}", "Deviation": '"%s"' % deviation, "Model": '"%s"' % model,
              "Depth": depth, "Export": "TRUE" if export else "FALSE"}
    if module == "Handshake":
        consts["Levels"] = "{%s}" % ", ".join(map(str, levels))
    if module == "Moving":
        consts["Levels"] = "{%s}" % ", ".join(map(str, MOVING_LEVELS[depth]))
    if module == "Concurrent":
        consts["Levels"] = "{%s}" % ", ".join(map(str, CONCURRENT_LEVELS[model]))
    return tlc(module, consts, os.path.join(work, "model-" + module + model + deviation), INVARIANTS[module])


def printed(out):
    for m in re.finditer(r'^"SCENARIO (.*)"$', out, re.M):
        yield json.loads(json.loads('"' + m.group(1) + '"'))


def check(prop, tier, work):
    res = {"scenarios": [], "states": 0, "transitions": 0, "summary": []}
    for module, model, levels, depth in entries(prop, tier):
        for strict in [False] + ([True] if prop == "C14" else []):
            rc, out = run_model(prop, module, model, levels, depth, work, export=not strict, strict=strict)
            if rc:
                raise ToolError("the model %s.%s does not satisfy %s (exit code %d):\n%s" % (module, model, prop, rc, out[-3000:]))
            gen, distinct = stats(out)
            l = list(printed(out))
            for i, ops in enumerate(l):
                s = dict(ops, id="%s-%d" % (model, i)) if isinstance(ops, dict) else {"id": "%s-%d" % (model, i), "ops": ops}
                if prop == "C19":
                    s["io"] = 1
                res["scenarios"].append(s)
            res["states"] += distinct
            res["transitions"] += gen
            res["summary"].append({"module": module, "model": model, "levels": list(levels), "depth": depth, "strict": strict, "states": distinct, "scenarios": len(l)})
    return res


def all_deviations(prop):
    for d, l in DEVIATIONS.items():
        for p, model, levels, depth in l:
            if p == prop:
                yield d, "Handshake", model, levels, depth
    for d, l in OTHER_DEVIATIONS.items():
        for p, module, model, depth in l:
            if p == prop:
                yield d, module, model, (), depth


def deviations(prop, work):
    """every deviation named for the property must be found"""
    missed = []
    for d, module, model, levels, depth in all_deviations(prop):
        rc, out = run_model(prop, module, model, levels, depth, work, d, False, d == "strict-lax")
        found = rc == 12 and '"BROKEN ' in out
        print("  deviation %-18s %s %s: %s" % (d, prop, model, re.findall(r'"BROKEN (.*)"', out)[:1] if found else "NOT FOUND (exit code %d)\n%s" % (rc, out[-800:])), flush=True)
        if not found:
            missed.append(d)
    return missed
