"""Building, running the harness and running TLC."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")


class ToolError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise ToolError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build_java():
    src = os.path.join(VERIF, "java", "NtlmPrims.java")
    out = os.path.join(BUILD, "classes")
    cls = os.path.join(out, "NtlmPrims.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(out, exist_ok=True)
        run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", out, src])


def build_harness(strict=False, release=False):
    """Builds the harness against /repo's current working tree and returns the path of the binary."""
    profile = "release" if release else "debug"
    target = os.path.join(BUILD, "target-strict" if strict else "target")
    # cargo goes by modification times; the tree under test may be older than the last build
    fp = os.path.join(target, profile, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("http-ntlm-") or d.startswith("ntlm-harness-"):
                shutil.rmtree(os.path.join(fp, d))
    env = dict(os.environ, RUSTFLAGS="--cfg http_ntlm_verif", CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"] + (["--features", "strict"] if strict else []) + (["--release"] if release else [])
    run(cmd, cwd=os.path.join(VERIF, "harness"), env=env)
    return os.path.join(target, profile, "ntlm-harness")


def same_addresses():
    """no address space randomisation from here on (where the kernel lets us)"""
    import ctypes
    ctypes.CDLL(None).personality(0x0040000)


def execute(binary, scenarios, work, name="trace", limit=120, still=False):
    """`still`: clocks, process number and addresses are those of every other such run. Runs the scenarios; one record per scenario. A scenario during which the process dies or
    hangs gets a record that ends with a "crash" event; after the third the rest is left out."""
    out = os.path.join(work, name + ".ndjson")
    prog = os.path.join(work, name + ".progress")
    rest = list(scenarios)
    crashes = 0
    open(out, "w").close()
    while rest:
        inp = os.path.join(work, name + ".in")
        with open(inp, "w") as f:
            for s in rest:
                f.write(json.dumps(s) + "\n")
        if os.path.exists(prog):
            os.remove(prog)
        p = subprocess.Popen([binary, inp, out, prog] + (["still"] if still else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work,
                             preexec_fn=same_addresses if still else None)
        last, since = None, time.time()
        while True:
            try:
                rc = p.wait(timeout=0.2 if since + 2 < time.time() else 0.02)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = open(prog).read() if os.path.exists(prog) else None
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > limit:
                p.kill()
                rc = p.wait()
                break
        if rc == 0:
            break
        if rc == 3:
            raise ToolError("the harness cannot stand in for /etc/hostname and the clock")
        if not os.path.exists(prog) or not open(prog).read().strip():
            raise ToolError("the harness did not start (exit code %d)" % rc)
        n = int(open(prog).read())
        # a half-written line is dropped
        data = open(out).read()
        data = data[:data.rfind("\n") + 1]
        ops = rest[n]["ops"]
        data += json.dumps({"id": rest[n]["id"], "ev": [{"op": "crash", "rc": rc, "ops": len(ops)}]}) + "\n"
        with open(out, "w") as f:
            f.write(data)
        rest = rest[n + 1:]
        crashes += 1
        if crashes == 3:
            break
    return out, crashes


def tlc(module, constants, work, invariants=(), env=None, spec="Spec", workers=8, props=(), extra=(), timeout=840, deadlock=False, post=None, constraint=None):
    """Runs TLC; returns (exit code, output)."""
    os.makedirs(work, exist_ok=True)
    cfg = os.path.join(work, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\nCHECK_DEADLOCK %s\n" % (spec, "TRUE" if deadlock else "FALSE"))
        for k, v in constants.items():
            f.write("CONSTANT %s = %s\n" % (k, v))
        for i in invariants:
            f.write("INVARIANT %s\n" % i)
        for i in props:
            f.write("PROPERTY %s\n" % i)
        if post:
            f.write("POSTCONDITION %s\n" % post)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx8g", "-Xss256m", "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NtlmPrims",
           "-cp", ":".join([os.path.join(BUILD, "classes"), TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(work, "states-" + module), "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **(env or {})), cwd=work, timeout=timeout)
    shutil.rmtree(os.path.join(work, "states-" + module), ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def tla_set(l):
    return "{" + ", ".join('"%s"' % x for x in l) + "}"


def findings():
    """identifier -> (property, description) of the listed findings"""
    r = {}
    for line in open(KNOWN_FILE):
        m = re.match(r"finding: property=(\S+) (\S+) (.*)", line)
        if m:
            r[m.group(2)] = (m.group(1), m.group(3).strip())
    return r
