"""Scenarios (lists of operations for the harness) per property. Seeded random and boundary cases;
the histories and values that TLC generates from the specification come on top (see check.py)."""
import itertools
from vals import *

LEVELS = range(6)


THREADED = {"new", "neg", "chal", "auth", "ver", "dec", "rt", "mk", "build", "enc", "set", "add", "fill", "mic", "rand", "ft_now", "fset", "fclr", "fshow"}


def numbered(prefix, l, io=False):
    out = []
    for i, ops in enumerate(l):
        s = dict(ops) if isinstance(ops, dict) else {"ops": ops}
        s["id"] = "%s-%d" % (prefix, i)
        if i % 4 == 3:          # calls from threads that come and go
            ths = [1, 1, 1] if i % 8 == 3 else [2, 3, 1]
            s["ops"] = [dict(op, th=ths[(j * 5 + i // 8) % 3]) if "th" not in op and op["op"] in THREADED and (j * 7 + i) % 3 else op for j, op in enumerate(s["ops"])]
        if i % 6 == 4:          # somebody else's calls in between, most of which fail
            ops = []
            for j, op in enumerate(s["ops"]):
                if j < 30 and (i // 6 + j) % 2 == 0:
                    what = (i // 6 * 5 + j) % 12
                    ops.append({"op": "outcast", "what": what, "n": 0, **({"th": [2, 3, 1][(i // 6 + j) % 3]} if i % 8 == 2 else {})})
                ops.append(op)
            s["ops"] = ops
        if io:
            s["io"] = 1
        out.append(s)
    return out


def chal_op(g, c, m, raw=None, slot=None):
    """gives challenge value m to client c: as an object, or as bytes (canonical or `raw`)"""
    if raw is None and g.r.random() < .5 and (m["ti"] == [] or m["ti"][-1]["id"] == 0) and all(p["id"] != 0 for p in m["ti"][:-1]):
        return {"op": "chal", "c": c, "val": m}
    return {"op": "chal", "c": c, "raw": (raw or enc_chal(m)).hex()}


def play(g, c, word, mk):
    """N: negotiate, U: authenticate, V: version, other letters: the challenge of that name"""
    given, ops = {}, []
    for x in word:
        if x == "N":
            ops.append({"op": "neg", "c": c})
        elif x == "U":
            ops.append({"op": "auth", "c": c, **({"dice": g.dice()} if g.loaded and g.r.random() < .15 else {})})
        elif x == "V":
            ops.append({"op": "ver", "c": c, "ver": g.opt(g.ver, .7)})
        elif x == "T":
            ops.append(g.clock())
        else:
            if x not in given:
                given[x] = mk()
            ops.append(chal_op(g, c, given[x]))
    return ops


WORDS = ["NAU"] * 8 + ["NAUU", "NABU", "NAUNBU", "NNAU", "VNAU", "NAUNBUNCU", "ANAU", "NAUB", "NVAU", "VNAUVNBU", "VNAUVNAU", "VNVNAU", "VNUVNAU", "NAVUVU", "NAUVUNAU", "TNTAUTU", "TNATU"]


def handshake(g, level, plain=False, word=None, mk=None, env=True, ver=.4):
    ops = g.env() if env else []
    ops.append(dict(g.ident(plain), c=0, level=level))
    if g.r.random() < ver:
        ops.append({"op": "ver", "c": 0, "ver": [g.ver()]})
    return ops + play(g, 0, word or g.r.choice(WORDS), mk or g.chal)


def clients(g, n, levels=LEVELS, **kw):
    lv = list(levels)
    return [handshake(g, lv[i % len(lv)], **kw) for i in range(n)]


KEYBITS = ["KEY_EXCH", "SIGN", "SEAL", "ESS", "LM_KEY", "NON_NT"]


def flagged(g, levels=LEVELS, bits=KEYBITS, **kw):
    """every combination of the flags that decide about responses and keys, at every level"""
    out = []
    for lv in levels:
        for k in range(2 ** len(bits)):
            on = [b for i, b in enumerate(bits) if k >> i & 1]
            w = g.flags(on, [b for b in bits if b not in on])
            out.append(handshake(g, lv, word="NAU", mk=lambda: g.chal(flags=w), **kw))
    return out


def single_bits(g, levels):
    out = []
    for lv in levels:
        for b in range(32):
            for base in (0, 0xffffffff, word(["UNICODE", "NTLM", "TARGET_INFO", "ESS", "KEY_EXCH", "SIGN"])):
                w = base ^ (1 << b)
                out.append(handshake(g, lv, word="NAU", mk=lambda: g.chal(flags=w)))
    return out


def interleaved(g, n, plain=True, length=14):
    """two or three clients of one process, calls in any order"""
    out = []
    for _ in range(n):
        ops = g.env()
        k = g.r.choice([1, 2, 2, 3])
        for c in range(k):
            ops.append(dict(g.ident(plain), c=c, level=g.r.choice(LEVELS)))
        pool = [g.chal() for _ in range(3)]
        for _ in range(g.r.randrange(4, length)):
            c = g.r.randrange(k)
            x = g.r.choice("NNNCCCUUUVVT")
            ops += play(g, c, "A" if x == "C" else x, lambda: g.r.choice(pool))
        out.append(ops)
    return out


def all_words(g, depth, levels, letters="NABU", plain=True):
    """every history of one client up to a depth (maximal ones only: prefixes are covered)"""
    out = []
    for lv in levels:
        for w in itertools.product(letters, repeat=depth):
            if "U" not in w:
                continue
            out.append([dict(g.ident(plain), c=0, level=lv)] + play(g, 0, w, g.chal))
    return out


def decodes(g, n, kinds=KINDS, mutated=.6, layouts=True):
    out = []
    for i in range(n):
        ops = []
        for _ in range(8):
            k = g.r.choice(kinds)
            b = g.raw(k, None if layouts else "canon")
            if g.r.random() < mutated:
                b = g.mutate(k, b)
            if g.r.random() < .02:
                b = bytes(g.r.randrange(256) for _ in range(g.r.randrange(120)))
            ops.append({"op": "dec", "o": g.r.randrange(4), "kind": k, "raw": bytes(b).hex()})
        out.append(ops)
    return out


def truncations(g, kinds):
    """every prefix of a message"""
    out = []
    for k in kinds:
        b = bytes(g.raw(k, "canon"))[:260]
        ops = [{"op": "dec", "o": 0, "kind": k, "raw": b[:i].hex()} for i in range(len(b) + 1)]
        out += [ops[i:i + 40] for i in range(0, len(ops), 40)]
    return out


def answered(g, n):
    """whatever bytes are accepted as a CHALLENGE, every level answers them"""
    out = []
    for i in range(n):
        b = g.raw("chal")
        if g.r.random() < .6:
            b = g.mutate("chal", b)
        if g.r.random() < .08:
            m = g.chal(big=True)
            b = enc_chal(m)
        ops = [dict(g.ident(True), c=c, level=c) for c in LEVELS]
        for c in LEVELS:
            ops += [{"op": "neg", "c": c}, {"op": "chal", "c": c, "raw": bytes(b).hex()}, {"op": "auth", "c": c}]
        out.append(ops)
    return out


def infos_of(g, total):
    """target information of exactly `total` bytes, terminator included"""
    l = []
    while total > 4 + 4:
        n = min(total - 8, 40000) & ~1
        l.append({"id": g.r.choice([1, 2, 3, 4, 5, 9]), "t": [97 + g.r.randrange(26)] * (n // 2)})
        total -= 4 + n
    return l + [{"id": 0}]


def huge(g, sizes):
    out = []
    for t in sizes:
        ops = [dict(g.ident(True), c=c, level=c) for c in LEVELS]
        m = g.chal(ti=infos_of(g, t))
        m["flags"], m["ver"] = be(int(m["flags"], 16) & ~word(["VERSION"])), []
        for c in LEVELS:
            ops += [{"op": "neg", "c": c}, {"op": "chal", "c": c, "raw": enc_chal(m).hex()}, {"op": "auth", "c": c}]
        out.append(ops)
    return out


def terminated(l):
    """what the API can build: items, then one terminator"""
    l = [p for p in l if p["id"]]
    return l + [{"id": 0}] if l else []


def roundtrips(g, n, kinds=KINDS, wf=.85):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(6):
            k = g.r.choice(kinds)
            v = g.val(k, g.r.random() < wf)
            if k == "chal":
                v["ti"] = terminated(v["ti"])
            ops.append({"op": "rt", "kind": k, "val": v})
        out.append(ops)
    return out


def text_sweep(g):
    """names that cross the sizes and planes encoders tend to trip over"""
    out = []
    for t in (*map(txt, MAGIC), [97], [0x10000], [0x10ffff], [0x1f600] * 3, [0xd7ff, 0xe000], [0xffff], [0xfffd], [0x80], [0xff], [0x100], [0x7ff], [0x800],
              [97] * 127, [97] * 128, [98] * 255, [98] * 256, [0x20ac] * 300, [97] * 16383, [97] * 16384, [98] * 30000, [0x1f4a9] * 8000, [97] * 32767):
        w = be(word(["UNICODE"]))
        ops = [{"op": "rt", "kind": "chal", "val": {"tn": [t], "flags": w, "sc": g.hex(8), "ti": [], "ver": []}},
               {"op": "rt", "kind": "auth", "val": {"lm": [], "nt": [], "dom": [t], "user": [t[::-1]], "ws": [t], "key": [], "flags": w, "ver": [], "mic": g.hex(16)}}]
        if len(t) < 32000:
            ops += [{"op": "rt", "kind": "av", "val": {"id": i, "t": t}} for i in (1, 2, 3, 4, 5, 9)]
            ops += [{"op": "rt", "kind": "avs", "val": [{"id": 9, "t": t}, {"id": 0}]}]
        if len(untxt(t).encode()) < 65536:
            ops.append({"op": "rt", "kind": "neg", "val": {"flags": w, "dom": [t], "ws": [t], "ver": []}})
        out.append(ops)
    return out


def objects(g, n):
    """setter histories"""
    fields = {"neg": ["dom", "ws", "flags", "ver"], "chal": ["tn", "flags", "ver", "sc"], "auth": ["key", "flags", "ver", "user", "dom", "ws"]}
    out = []
    for i in range(n):
        kind = ["neg", "chal", "auth"][i % 3]
        ops = [{"op": "mk", "o": 0, "kind": kind}] if g.r.random() < .6 else [{"op": "build", "o": 0, "kind": kind, "val": g.val(kind)}]
        if kind == "chal" and ops[0]["op"] == "build":
            m = ops[0]["val"]
            m["ti"] = terminated(m["ti"])
        for _ in range(g.r.randrange(3, 14)):
            f = g.r.choice(fields[kind] + fields[kind][:2])
            if f == "flags":
                v = [be(g.r.choice([0, 0xffffffff, g.r.getrandbits(32)]))]
            elif f == "ver":
                v = g.opt(lambda: g.ver(False))
            elif f == "sc":
                v = [g.hex(8)]
            elif f == "key":
                v = g.opt(lambda: g.hex(16))
            else:
                v = g.opt(g.name, .6)
            ops.append({"op": "set", "o": 0, "f": f, "v": v})
        out.append(ops)
    return out


ENVK = ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"]


def fills(g):
    out = []
    for k in range(16):
        for _ in range(3):
            ops = []
            for i, e in enumerate(ENVK):
                if k >> i & 1:
                    v = g.r.choice([lambda: untxt(g.name()).replace("\0", "").encode(), lambda: b"name" + bytes([48 + i]), lambda: b""])()
                    ops.append({"op": "env", "k": e, "v": [v.hex()]})
            ops.append({"op": "mk", "o": 0, "kind": "chal"})
            for _ in range(g.r.randrange(3)):
                ops.append({"op": "add", "o": 0, "item": g.av()})
            ops.append({"op": "fill", "o": 0})
            if g.r.random() < .5:
                ops.append({"op": "add", "o": 0, "item": g.av()})
            if g.r.random() < .3:
                ops.append({"op": "fill", "o": 0})
            out.append(ops)
    return out


def builders(g, n, pairs=True):
    out = []
    for i in range(n):
        ops = [] if i % 2 else g.env()
        k = g.r.random()
        if k < .45:
            ops.append({"op": "mk", "o": 0, "kind": "chal"})
        elif k < .75:
            m = g.chal()
            m["ti"] = terminated(m["ti"])
            ops.append({"op": "build", "o": 0, "kind": "chal", "val": m})
        else:
            ops.append({"op": "dec", "o": 0, "kind": "chal", "raw": bytes(g.raw("chal")).hex()})
        for _ in range(g.r.randrange(0, 13)):
            x = g.r.random()
            if x < .08:
                ops.append({"op": "fill", "o": 0})
            elif x < .2:
                f, v = g.r.choice([("tn", g.opt(g.name)), ("flags", [be(g.r.getrandbits(32))]), ("sc", [g.hex(8)])])
                ops.append({"op": "set", "o": 0, "f": f, "v": v})
            else:
                ops.append({"op": "add", "o": 0, "item": g.av(wf=g.r.random() < .8)})
        out.append(ops)
    # each kind of item first, second, repeated
    ids = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10] if pairs else []
    for a, b in itertools.product(ids, ids):
        out.append([{"op": "mk", "o": 0, "kind": "chal"}] + [{"op": "add", "o": 0, "item": g.av([x])} for x in (a, b, a)])
    return out


def flag_ops(g, n):
    out = [[{"op": "fconst"}]]
    for b in range(32):
        for w in ("00000000", "ffffffff"):
            out.append([{"op": "fnew", "o": 0, "word": w}, {"op": "fset", "o": 0, "bit": b}, {"op": "fshow", "o": 0}, {"op": "fhas", "o": 0, "bit": b},
                        {"op": "fclr", "o": 0, "bit": b}, {"op": "fshow", "o": 0}, {"op": "fhas", "o": 0, "bit": b}])
    for a, b in itertools.combinations(range(32), 2):
        out.append([{"op": "fnew", "o": 0, "word": be(1 << a | 1 << b)}, {"op": "fshow", "o": 0}, {"op": "fclr", "o": 0, "bit": a}, {"op": "fshow", "o": 0}])
    for _ in range(n):
        ops = [{"op": "fnew", "o": 0, "word": be(g.r.getrandbits(32))}]
        for _ in range(g.r.randrange(4, 20)):
            ops.append({"op": g.r.choice(["fset", "fclr", "fhas"]), "o": 0, "bit": g.r.randrange(32)})
        ops.append({"op": "fshow", "o": 0})
        out.append(ops)
    return out


def times(g, n):
    e = 11644473600
    secs = [0, 1, 2, 59, 86400, 2**31 - 1, 2**31, 2**32 - 1, 2**32, e, e - 1, e + 1, 1700000000, 910692730085, 910692730086,
            2**64 // 10**7 - e, 2**64 // 10**7 - e - 1, 2**64 // 10**7 - e + 1, 2**63 // 10**7, 2**63 - 1, 2**63, 2**62, 2**64 - 1, 2**64 // 1000, 2**64 // 10**9, 2**64 // 100]
    nanos = [0, 1, 99, 100, 101, 199, 999999999, 999999900, 999999899, 500000000]
    cases = [(n_, s, k) for s in secs for k in nanos for n_ in (0, 1)]
    for _ in range(n):
        cases.append((g.r.randrange(2) if g.r.random() < .3 else 0, g.r.choice([g.r.getrandbits(64), g.r.getrandbits(40), g.r.getrandbits(34), g.r.getrandbits(31)]), g.r.randrange(10**9)))
    ops = [{"op": "ft_from", "neg": a, "secs": "%016x" % s, "nanos": k} for a, s, k in cases]
    ep = 116444736000000000
    fts = [0, 1, 9, 10, 9999999, 10000000, ep, ep - 1, ep + 1, ep - 10**7, ep + 10**7, ep - 9999999, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**63 + 1,
           2**64 - 1, 2**64 - 2, 2**64 - ep, 132223104000000000, 2**61, 2**60] + [1 << k for k in range(64)] + [(1 << k) - 1 for k in range(64)]
    fts += [g.r.getrandbits(64) for _ in range(n)] + [ep + g.r.getrandbits(56) for _ in range(n)] + [ep - g.r.getrandbits(56) for _ in range(n // 2)]
    ops += [{"op": "ft_to", "ft": [be(f >> 32 & 0xffffffff), be(f & 0xffffffff)]} for f in fts if f >= 0]
    ops += [{"op": "dec", "o": 0, "kind": "ft", "raw": (f & (2**64 - 1)).to_bytes(8, "little").hex()} for f in fts[:160]]
    ops += [{"op": "dec", "o": 0, "kind": "ft", "raw": "00" * k} for k in range(8)]
    ops += [{"op": "ft_now"}] * 5
    for s_ in secs:
        for k in nanos[:6]:
            if s_ < 2**36:
                ops += [{"op": "clock", "t": [["%016x" % s_, k]]}, {"op": "ft_now"}]
    for _ in range(n // 3):
        ops += [g.clock(), {"op": "ft_now"}]
    ops += [{"op": "clock", "t": []}, {"op": "ft_now"}]
    return [ops[i:i + 25] for i in range(0, len(ops), 25)]


def hostnames(g, levels):
    out = []
    hosts = [None, b"", b"\n", b"host\n", b"host", b"HOST.example.com\n", b" padded \n", b"\nlate\n", b"a.b\nc.d\n", b".dot\n", b"host\r\n", b"host\r", b"\tx\t.y",
             b"\r\n", b"-", "münchen\n".encode(), "straße.de\n".encode(), b"\xff\xfe", b"ok\xff\n", b"a" * 300 + b"\n", b"host\0x\n", "\u00a0nb\u2003\n".encode(), b"...\n", b" . \n", b"\x0bvt\x0c\n",
             b"# comment\nreal\n", b"#c\n", b"; c\nreal\n", b"localhost\n", b"localhost.localdomain\n", b"(none)\n", b"127.0.0.1\n", b"\xef\xbb\xbfbom\n", b"NAME=host\n", b"xn--mnchen-3ya.de\n", b"two words\n",
             b"host\tother\n", b'"quoted"\n', b"host\n\n\n", b"HOST$\n", b"x" * 15 + b".d\n", b"x" * 16, b"x" * 63, b"x" * 64 + b"\n", b"x" * 65, b"x" * 255, b"x" * 256 + b".y", b"h\n" + b"#" * 70000, b"y" * 5000 + b"." + b"z" * 70000, b"host,a\n", b"under_score\n"]
    names = [None, b"", b"PC", b"pc-lower", b"with.dot", b" sp ", "ß-pc".encode(), b"\xff", b"x" * 200, "\U0001f600".encode(), b"localhost", b"x" * 15, b"x" * 16, b"PC$", b"pc\n", b"\npc", b"(none)", b".", b"a.b.c", b"\t", b"  "]
    hosts += ERRNOS
    for i, (h, n) in enumerate([(h, None) for h in hosts] + [(e, b"PC") for e in ERRNOS[:3]] + [(b"fallback.dom\n", n) for n in names] + [(None, n) for n in names] + [(b"\xff", b"\xff"), (b"", b"")]):
        for lv in levels:
            ops = []
            if isinstance(h, int):
                ops.append({"op": "host", "v": [], "err": h})
            elif h is not None:
                ops.append({"op": "host", "v": [h.hex()]})
            if n is not None:
                ops.append({"op": "env", "k": "COMPUTERNAME", "v": [n.hex()]})
            ops.append(dict(g.ident(), c=0, level=lv))
            out.append(ops + play(g, 0, "NAU", g.chal))
    return out


def accounts(g, levels):
    out = []
    names = ["", "u", "u@d", "d\\u", "d\\u@x", "u@d\\x", "\\u", "u@", "@d", "d\\", "a\\b\\c", "a@b@c", "@", "\\", "@\\", "\\@", "Ünï@Dömäin", "DÖM\\üser", "\U0001f600@\U0001f4a9",
             "user name@dom ain", " u@d ", "u/d", "d/u", "u%d", "UPPER@lower", "Corp\\MiXed", "a@b\\c@d", "a\\b@c\\d", "straße@groß.de", "u@d.example.com", ".\\u",
             "u@d.", "u@.d", "u@@d", "*\\u", "\\\\d\\u", "u:p@d", "%55ser", "d\\u$", '"u"@d', "'u'", "u\uff20d", "d\uff3cu", "localhost\\u", "u@localhost", "anonymous", "Guest", "NT AUTHORITY\\SYSTEM",
             "u@192.168.0.1", "u@[::1]", "d" * 15 + "\\u", "d" * 16 + "\\u", "u" * 20, "u" * 21 + "@d", "u+t@d", "first.last@d", "/u", "d;u", "d+u", "CN=u,DC=d", "%USERNAME%", "u@%D%", " ", "\t\\u", "d\\ u"]
    names += ["u@" + d for d in SHAPED if "@" not in d] + [d + "\\u" for d in SHAPED if "\\" not in d] + SHAPED
    for a in names:
        for lv in levels:
            out.append([{"op": "new", "c": 0, "level": lv, "via": "account", "acct": txt(a), "pw": txt("Secr3t"), "target": txt("http")}] + play(g, 0, "NAU", g.chal))
    parts = [("", ""), ("", "d"), ("u", ""), ("d\\u", "x"), ("u@d", "x"), ("u", "a\\b"), ("u", "a@b"), ("üÜ", "äÄ"), ("u" * 300, "d" * 300), ("\U0001f600", "\U0001f600")]
    parts += [(g.r.choice(SHAPED), d) for d in SHAPED] + [(u, g.r.choice(SHAPED)) for u in SHAPED]
    for u, d in parts:
        for lv in levels:
            out.append([{"op": "new", "c": 0, "level": lv, "via": "parts", "user": txt(u), "dom": txt(d), "pw": txt("Secr3t"), "target": txt("")}] + play(g, 0, "NAU", g.chal))
    return out


def passwords(g, levels):
    """length and alphabet boundaries of the password"""
    out = []
    pws = [""] + ["Passw0rdPassw0rdPassw0rd"[:k] for k in (1, 6, 7, 8, 13, 14, 15, 16, 24)] + ["ALLUPPER", "alllower", "ß", "ä" * 7, "ä" * 14, "日本語", "\U0001f600" * 4,
           "a" * 13 + "é", "é" + "a" * 13, "\x7f~!@#$%^&*()", "a" * 1000, "ß" * 8, "İıſŉ", "pass\x00word", "  spaces  ", "ŉ" * 7, "ﬃ" * 6, "x" * 32767, "é" * 16000] + MAGICPW
    for p in pws:
        for lv in levels:
            for ws in (["NAU"] if len(p) > 100 else ["NAU", "NAU"]):
                out.append([dict(g.ident(True), c=0, level=lv, pw=txt(p))] + play(g, 0, ws, g.chal))
    return out


def long_names(g, levels):
    out = []
    for n in (127, 128, 255, 256, 1000, 16384, 32767):
        for lv in levels:
            for u, d, h in ((n, 3, 3), (3, n, 3), (3, 3, n)):
                ops = [{"op": "env", "k": "COMPUTERNAME", "v": ["61" * h]}]
                ops.append({"op": "new", "c": 0, "level": lv, "via": "parts", "user": [117] * u, "dom": [100] * d, "pw": txt("Passw0rd"), "target": []})
                out.append(ops + play(g, 0, "NAU", g.chal))
    # text whose upper-case form is longer
    for lv in levels:
        out.append([{"op": "new", "c": 0, "level": lv, "via": "parts", "user": [0x390] * 10922, "dom": [0xdf] * 100, "pw": [0xdf] * 400, "target": []}] + play(g, 0, "NAU", g.chal))
    return out


def fresh(g, n, stopped=False):
    """one long scenario of many AUTHENTICATEs: same client again and again, new clients, the same
    and other challenges, sessions keys exchanged"""
    ops = []
    same = g.chal(flags=word(["UNICODE", "ESS", "KEY_EXCH", "SIGN", "TARGET_INFO"]))
    for c in range(6):
        ops.append(dict(g.ident(True), c=c, level=c))
    # the same account twice: nonces must not be a function of it
    twin = dict(g.ident(True), level=3)
    ops += [dict(twin, c=6), dict(twin, c=7)]
    i = 0
    if stopped:
        ops.append(g.clock())
    while i < n:
        c = g.r.randrange(8)
        if g.r.random() < .04:
            ops.append(dict(twin, c=6))
        m = same if g.r.random() < .5 else g.chal(flags=g.flags(["ESS", "KEY_EXCH", "SIGN"]))
        w = g.r.choice(["NAU", "NAUU", "NAUUU"])
        ops += play(g, c, w, lambda: m)
        if stopped and g.r.random() < .03:
            ops.append(g.clock())
        i += w.count("U")
    return ops


def levels_words(g, depth, levels):
    out = []
    for lv in levels:
        for w in itertools.product("NAU", repeat=depth):
            if "N" in w:
                out.append([dict(g.ident(True), c=0, level=lv)] + play(g, 0, w, g.chal))
    return out


def secrets(g, n):
    out = []
    for i in range(n):
        lv = i % 6
        pw = [g.text(g.r.choice([8, 12, 14, 15, 20]), "word"), g.text(9, "print"), [0xe9] + g.text(9, "word"), [0x1f600] + g.text(8, "word")][g.r.choice([0, 0, 1, 2, 3])]
        ident = dict(g.ident(True), c=0, level=lv, pw=pw)
        ops = g.env() + [ident]
        mk = lambda: g.chal(flags=g.flags(mode=g.r.choice(["key", "server", "random"])))
        if g.r.random() < .15:
            ops.append({"op": "auth", "c": 0})
        ops += play(g, 0, g.r.choice(["NAU", "NAUU", "NAUNBU", "NABU", "NU", "NAAU", "UNAU", "NAUA"]), mk)
        if g.r.random() < .3:
            ops.append({"op": "chal", "c": 0, "raw": bytes(g.mutate("chal", g.raw("chal"))).hex()})
        out.append(ops)
    for lv in LEVELS:
        for k in range(2 ** len(KEYBITS)):
            on = [b for i, b in enumerate(KEYBITS) if k >> i & 1]
            w = g.flags(on, [b for b in KEYBITS if b not in on])
            out.append([dict(g.ident(True), c=0, level=lv, pw=g.text(12, "word"))] + play(g, 0, "NAU", lambda: g.chal(flags=w)))
    return out


def strict_flags(g, n):
    """messages around what the strict feature refuses"""
    out = []
    ok = word(["UNICODE", "ESS"])
    words = [ok | 1 << FLAG[r] for r in RESERVED] + [ok | word(["TARGET_DOMAIN"]), ok | word(["TARGET_SERVER"]), ok | word(["TARGET_DOMAIN", "TARGET_SERVER"]),
             0, word(["OEM"]), word(["UNICODE"]), word(["OEM", "UNICODE"]), word(["ESS"]), word(["LM_KEY", "UNICODE"]), word(["LM_KEY", "ESS", "OEM"]), ok, 0xffffffff]
    words += [ok ^ 1 << b for b in range(32)] + [word(["OEM"]) | 1 << b for b in range(32)]
    # any number of otherwise clean words
    clean = 0xffffffff & ~word(RESERVED)
    for _ in range(n):
        w = g.r.getrandbits(32) & clean
        if g.r.random() < .8:
            w &= ~word([g.r.choice(["TARGET_DOMAIN", "TARGET_SERVER"])])
            w &= ~word([g.r.choice(["ESS", "LM_KEY"])])
            w |= word([g.r.choice(["OEM", "UNICODE"])])
        if g.r.random() < .2:
            w ^= 1 << g.r.randrange(32)
        words.append(w)
    for w in words:
        ops = []
        for kind in ("neg", "chal", "auth"):
            m = g.val(kind)
            m["flags"] = be(w)
            m["ver"] = [g.ver()] if w >> FLAG["VERSION"] & 1 else []
            b = enc(kind, m, g.r.choice(LAYOUTS), g.r)
            ops.append({"op": "dec", "o": 0, "kind": kind, "raw": b.hex()})
            if kind == "chal":
                for res in (b"\1" + b"\0" * 7, b"\0" * 7 + b"\x80", bytes(g.r.randrange(256) for _ in range(8)), b"\0" * g.r.randrange(8) + b"\x01"):
                    ops.append({"op": "dec", "o": 0, "kind": kind, "raw": enc_chal(m, "canon", g.r, (res + b"\0" * 8)[:8]).hex()})
        ops.append({"op": "dec", "o": 0, "kind": "flags", "raw": le(w, 4).hex()})
        out.append(ops)
    # each clean or refused combination of the bits the rules speak of, with every pair of the others
    rules = [[], ["LM_KEY"], ["ESS", "LM_KEY"], ["TARGET_DOMAIN", "TARGET_SERVER"], ["TARGET_DOMAIN"], [None]]
    others = [b for b in range(32) if 1 << b & clean & ~word(["UNICODE", "OEM", "ESS", "LM_KEY", "TARGET_DOMAIN", "TARGET_SERVER"])]
    for k, rule in enumerate(rules):
        ops = []
        for a in others:
            for b in others[others.index(a):]:
                w = 1 << a | 1 << b
                w |= 0 if None in rule else word(rule) | word([["UNICODE"], ["OEM"]][(a + b) % 2])
                if k == 0 and (a * b) % 2:
                    w |= word(["ESS"])
                for v in {w, w ^ g.r.choice([0, clean]) & ~word(["UNICODE", "OEM", "ESS", "LM_KEY", "TARGET_DOMAIN", "TARGET_SERVER"])}:
                    ops.append({"op": "dec", "o": 0, "kind": "flags", "raw": le(v, 4).hex()})
        out += [ops[i:i + 40] for i in range(0, len(ops), 40)]
    return out


def built_challenges(g, n):
    """challenges built through the API and given as objects, or encoded and decoded first"""
    out = []
    for i in range(n):
        ops = g.env() + [dict(g.ident(), c=0, level=i % 6), {"op": "mk", "o": 0, "kind": "chal"}]
        ops.append({"op": "set", "o": 0, "f": "flags", "v": [be(g.flags())]})
        ops.append({"op": "set", "o": 0, "f": "sc", "v": [g.hex(8)]})
        for _ in range(g.r.randrange(0, 6)):
            ops.append({"op": "add", "o": 0, "item": g.av()})
        if g.r.random() < .4:
            ops.append({"op": "fill", "o": 0})
        if g.r.random() < .4:
            ops.append({"op": "set", "o": 0, "f": "tn", "v": g.opt(lambda: g.name(nonempty=True), .8)})
        ops += [{"op": "neg", "c": 0}, {"op": "chal", "c": 0, "o": 0}, {"op": "auth", "c": 0}]
        out.append(ops)
    return out


def noncanonical(g, n, levels=(3, 4, 5)):
    out = []
    for i in range(n):
        m = g.chal()
        b = enc_chal(m, g.r.choice(LAYOUTS[1:]), g.r)
        out.append([dict(g.ident(True), c=0, level=levels[i % len(levels)]), {"op": "neg", "c": 0}, {"op": "chal", "c": 0, "raw": b.hex()}, {"op": "auth", "c": 0}])
    return out


def big_infos(g, n, levels):
    return [handshake(g, lv, word="NAU", mk=lambda: g.chal(big=True)) for lv in levels for _ in range(n)]


def encodes(g, n):
    out = []
    for i in range(n):
        kind = ["neg", "chal", "auth"][i % 3]
        v = g.val(kind, g.r.random() < .6)
        if kind == "chal":
            v["ti"] = terminated(v["ti"])
        ops = [{"op": "build", "o": 0, "kind": kind, "val": v}, {"op": "enc", "o": 0}]
        out.append(ops)
    return out


def restless(g, n):
    """the environment changes at any moment, clients come and go under the same number, targets differ"""
    out = []
    for i in range(n):
        ops = g.env()
        ids = [dict(g.ident(g.r.random() < .5), level=g.r.choice(LEVELS)) for _ in range(2)]
        pool = [g.chal() for _ in range(2)]
        live = set()
        for _ in range(g.r.randrange(8, 22)):
            x = g.r.random()
            c = g.r.randrange(3)
            if x < .2:
                ops += g.env()
            elif x < .4 or not live:
                a = dict(g.r.choice(ids))
                if g.r.random() < .4:
                    a["target"] = g.r.choice([g.name, g.target])()
                if g.r.random() < .3:
                    a["pw"] = g.name()
                if g.r.random() < .3:
                    a["level"] = g.r.choice(LEVELS)
                ops.append(dict(a, c=c))
                live.add(c)
            else:
                c = g.r.choice(sorted(live))
                ops += play(g, c, g.r.choice(["N", "A", "U", "NAU", "NAU", "V", "AU", "NBU"]), lambda: g.r.choice(pool))
        out.append(ops)
    return out


def sealed(g, n):
    """MICs computed again and again while the three messages change"""
    out = []
    for i in range(n):
        ops = []
        for o, kind in ((0, "neg"), (1, "chal"), (2, "auth"), (3, "neg"), (4, "chal"), (5, "auth")):
            if g.r.random() < .8:
                v = g.val(kind, g.r.random() < .6)
                if kind == "chal":
                    v["ti"] = terminated(v["ti"])
                ops.append({"op": "build", "o": o, "kind": kind, "val": v})
            else:
                ops.append({"op": "mk", "o": o, "kind": kind})
        keys = [g.hex(16) for _ in range(2)] + ["00" * 16]
        for _ in range(g.r.randrange(2, 9)):
            x = g.r.random()
            if x < .6:
                ops.append({"op": "mic", "o": g.r.choice([2, 2, 5]), "n": g.r.choice([0, 0, 3]), "h": g.r.choice([1, 1, 4]), "key": [g.r.choice(keys)] if g.r.random() < .85 else []})
            elif x < .7:
                ops.append({"op": "set", "o": g.r.choice([2, 5]), "f": "user", "v": g.opt(g.name)})
            elif x < .75:
                ops.append({"op": "set", "o": 2, "f": "flags", "v": [be(g.flags())]})
            elif x < .82:
                ops.append({"op": "set", "o": 2, "f": "ver", "v": g.opt(g.ver)})
            elif x < .9:
                ops.append({"op": "set", "o": g.r.choice([0, 3]), "f": "dom", "v": g.opt(g.name)})
            elif x < .95:
                ops.append({"op": "add", "o": 1, "item": g.av()})
            else:
                ops.append({"op": "set", "o": 2, "f": "key", "v": g.opt(lambda: g.hex(16))})
        out.append(ops)
    return out


BUFFERS = {"ServerChallenge": 8, "ClientChallenge": 8, "SessionBaseKey": 16, "KeyExchangeKey": 16, "ExportedSessionKey": 16, "EncryptedRandomSessionKey": 16,
           "NtProofStr": 16, "Response16": 16, "Response24": 24, "Mic": 16, "RandomPad": 4}


def draws(g, n):
    """draws of random values, interleaved with handshakes"""
    ops, k = [], sorted(BUFFERS)
    c = dict(g.ident(True), c=0, level=3)
    ops.append(c)
    for i in range(n):
        ops.append({"op": "rand", "kind": g.r.choice(k), "n": g.r.choice([1, 1, 2, 3, 17])})
        if g.r.random() < .1:
            ops += play(g, 0, "NAU", g.chal)
    return ops + [{"op": "rand", "kind": x, "n": 128} for x in k]


def conversions(g, n):
    ops = []
    def add(f, a):
        ops.append({"op": "conv", "f": f, "a": a})
    rb = lambda k: g.r.choice([g.hex(k), g.hex(k), "00" * k, "ff" * k, "%02x" % g.r.randrange(256) + "00" * (k - 1), "00" * (k - 1) + "%02x" % g.r.randrange(256)])
    for _ in range(n):
        add("ver3", [g.r.randrange(256), g.r.randrange(256), g.r.randrange(65536)])
        add("ver8", g.r.choice([lambda: g.hex(8), lambda: g.hex(4) + "000000" + "%02x" % g.r.choice([15, 15, 15, 14, 31, 0]), lambda: g.hex(4) + g.hex(3) + "0f"])())
        add("lm1", rb(8))
        add("lm2", [rb(8), g.hex(g.r.choice([16, 16, 16, 1, 20, 63, 64, 65, 200])), rb(8)])
        add("lmfrom", g.lm())
        add("ntfrom", g.nt())
        add("key", rb(16))
        add("kek", rb(16))
        for k, size in BUFFERS.items():
            add("bytes", [k, rb(size)])
        add("text", g.name())
        add("avid", g.av(list(range(11))))
    return [ops[i:i + 30] for i in range(0, len(ops), 30)]


def concurrent(g, n, rep=8):
    """clients and messages of several threads at the same time (every word makes what it uses)"""
    out = []
    for i in range(n):
        par = []
        same = g.chal()
        k = g.r.choice([2, 3, 4, 8])
        kind = g.r.choice(["handshakes", "handshakes", "codec", "objects", "mixed", "mixed"])
        level = g.r.choice([None, *LEVELS])
        for t in range(k):
            x = kind if kind != "mixed" else g.r.choice(["handshakes", "codec", "objects"])
            ops = []
            if x == "handshakes":
                lv = g.r.choice(LEVELS) if level is None else level
                mk = g.chal if g.r.random() < .7 else lambda: same
                ops.append(dict(g.ident(g.r.random() < .6), c=t, level=lv))
                for _ in range(g.r.randrange(1, 4)):
                    ops += play(g, t, g.r.choice([w for w in WORDS if "T" not in w]), mk)
            elif x == "codec":
                for _ in range(4):
                    kd = g.r.choice(["neg", "chal", "auth"])
                    v = g.val(kd)
                    if kd == "chal":
                        v["ti"] = terminated(v["ti"])
                    ops.append({"op": "rt", "kind": kd, "val": v})
                    b = g.raw(kd)
                    ops.append({"op": "dec", "o": t, "kind": kd, "raw": bytes(g.mutate(kd, b) if g.r.random() < .4 else b).hex()})
            else:
                ops = g.r.choice([lambda: objects(g, 3)[g.r.randrange(3)], lambda: sealed(g, 1)[0], lambda: builders(g, 2, False)[1], lambda: conversions(g, 1)[0][:8]])()
            par.append(ops)
        out.append({"ops": g.env(), "par": par, "rep": rep, "noise": g.r.choice([4, 8, 12])})
    return out


def moved(g, n):
    """clients whose calls come from any thread, one after the other"""
    out = []
    for i in range(n):
        l = [lambda: handshake(g, g.r.choice(LEVELS)), lambda: interleaved(g, 1, False, 18)[0], lambda: twins(g, 1, LEVELS)[0],
             lambda: sealed(g, 1)[0], lambda: restless(g, 1)[0]][g.r.choice([0, 0, 1, 1, 2, 3, 4])]()
        p = g.r.choice([.2, .5, .9])
        ths = g.r.choice([[1], [2, 3], [1, 2, 3, 4]])
        out.append([dict(op, th=g.r.choice(ths)) if op["op"] in THREADED and g.r.random() < p else op for op in l])
    return out


def bursts(g, n):
    """short handshakes of many threads, over and over"""
    out = []
    for i in range(n):
        lv = [g.r.choice([(0, 1, 2), (3, 4, 5)][i % 2]) for _ in range(8)]
        par = []
        for t in range(8):
            m = g.chal(flags=g.flags(["UNICODE"]), ti=[] if t % 2 else None)
            par.append([dict(g.ident(True), c=t, level=lv[t])] + play(g, t, g.r.choice(["NAU", "NAUU", "NAU", "U"]), lambda: m))
        out.append({"ops": g.env(), "par": par, "rep": 20, "noise": 12})
    return out


def crowded(g, n, levels=()):
    """long lists of target information: sizes at which counters and buffers end"""
    out = []
    for i in range(n):
        k = [255, 256, 257, 64, 128, 1000, 300][i % 7]
        l = [g.av(n=g.r.randrange(4)) for _ in range(k)]
        while sum(len(enc_av(p)) for p in l) > 60000:
            l.pop()
        m = g.chal(ti=[p for p in l if p["id"]] + [{"id": 0}])
        ops = [{"op": "rt", "kind": "chal", "val": m}, {"op": "dec", "o": 0, "kind": "chal", "raw": enc_chal(m).hex()}]
        ops += [{"op": "add", "o": 0, "item": g.av()}, {"op": "enc", "o": 0}]
        if levels:
            ops += [dict(g.ident(True), c=0, level=levels[i % len(levels)])] + play(g, 0, "NAU", lambda: m)
        out.append(ops)
    return out


def deep(g, n):
    """as many pairs as a message has room for, on threads that have no more stack than any other"""
    out = []
    for i in range(n):
        k = [16363, 4096, 9000, 2000][i // 3 % 4]
        one = [{"id": 0}, {"id": g.r.choice([1, 2, 3, 4, 5, 9]), "t": []}, None][i % 3]
        l = [dict(one) if one else {"id": g.r.choice([0, 1, 2, 3, 4, 5, 9]), **({"t": []})} for _ in range(k)] + [{"id": 0}]
        l = [{"id": 0} if not p["id"] else p for p in l]
        m = dict(g.chal(ti=l), flags=be(g.flags() & ~word(["VERSION"])), ver=[])
        v = dict(g.auth(), nt=[{"v": 2 + i % 2, "ts": g.ft(), "cc": g.hex(8), "ti": l, **({"p": g.hex(16)} if i % 2 else {})}])
        ops = [{"op": "dec", "o": 0, "th": 1, "brief": 1, "kind": kind, "raw": bytes(enc(kind, x)).hex()} for kind, x in (("chal", m), ("auth", v), ("avs", l), ("nt", v["nt"][0]))]
        out.append(ops)
    return out


def lasting(g, n, levels, words=("NAU", "N", "U", "A", "NA")):
    """one client used very often: counters that end"""
    out = []
    for lv in levels:
        for word in words:
            ident = dict(g.ident(True), c=0, level=lv)
            m, other = g.chal(), g.chal()
            pre = [] if word[0] == "N" else play(g, 0, "NA", lambda: m)
            out.append([ident] + pre + [{"op": "loop", "n": n, "ops": play(g, 0, word, lambda: other if word == "A" else m)}] + play(g, 0, "U" if word == "A" else "NAU", lambda: m))
    return out


def twins(g, n, levels):
    """handshakes that share all but one thing with the one before: a component of the challenge, or of the client"""
    out = []
    for i in range(n):
        lv = levels[i % len(levels)]
        ident = g.ident(g.r.random() < .5)
        a = g.chal()
        b = g.sibling(a)
        ops = g.env() + [dict(ident, c=0, level=lv)]
        if g.r.random() < .3:
            ops.append({"op": "ver", "c": 0, "ver": [g.ver()]})
        given = {"A": a, "B": b}
        for x in g.r.choice(["NAUNBU", "NAUNBU", "NAUNBUNAU", "NAUNABUNBAU", "NAUNBUUNAUU", "NANBU"]):
            ops += [{"op": "neg", "c": 0}] if x == "N" else [{"op": "auth", "c": 0, **({"dice": g.dice()} if g.loaded and g.r.random() < .15 else {})}] if x == "U" else [chal_op(g, 0, given[x])]
        if g.r.random() < .5:
            other = dict(ident)
            k = g.r.choice([k for k in ("user", "dom", "acct", "pw") if k in other] + ["level"])
            if k == "level":
                lv = g.r.choice(levels)
            elif other[k] and g.r.random() < .5:      # one character, or its case, differs
                t = list(other[k])
                j = g.r.randrange(len(t))
                t[j] = t[j] ^ 32 if chr(t[j]).isascii() and chr(t[j]).isalpha() else t[j] % 90 + 33
                other[k] = t
            else:
                other[k] = g.name("\\@") if k != "pw" else g.password()
            c = g.r.randrange(2)
            ops += [dict(other, c=c, level=lv)] + play(g, c, "NAU", lambda: b)
            if c:
                ops += play(g, 0, "NAU", lambda: a)
        out.append(ops)
    return out


def generate(prop, seed, tier):
    g = Gen(seed, prop)
    g.loaded = prop not in ("C06", "C19", "C25")      # nonces may be chosen
    k = 1 if tier == "quick" else 8
    if prop == "C01":
        d = 5 if tier == "quick" else 6
        l = all_words(g, d, g.r.sample(range(6), 2) if tier == "quick" else LEVELS) + interleaved(g, 150 * k, length=24) + all_words(g, 4, LEVELS, "NABU")
        l += lasting(g, 300, LEVELS) + lasting(g, 66000, (g.r.choice(LEVELS),) if tier == "quick" else LEVELS)
        l += twins(g, 80 * k, LEVELS)
    elif prop == "C02":
        l = clients(g, 300 * k, (3, 4, 5)) + passwords(g, (3, 4, 5)) + accounts(g, (4,)) + big_infos(g, 3 * k, (3, 5)) + built_challenges(g, 40 * k) + interleaved(g, 40 * k, False)
        l += crowded(g, 7 * k, (3, 4, 5)) + lasting(g, 300, (3, 4, 5), ("NAU", "U"))
        l += twins(g, 60 * k, (3, 4, 5))
    elif prop == "C03":
        l = clients(g, 200 * k, (0, 1, 2)) + passwords(g, (0, 1, 2)) + flagged(g, (0, 1, 2), ["ESS", "LM_KEY", "NON_NT", "NTLM", "KEY_EXCH"]) + interleaved(g, 40 * k, False)
        l += lasting(g, 300, (0, 1, 2), ("NAU", "U"))
        l += twins(g, 60 * k, (0, 1, 2))
    elif prop == "C04":
        l = flagged(g) + clients(g, 200 * k) + passwords(g, (0, 3)) + interleaved(g, 40 * k)
        l += lasting(g, 300, LEVELS, ("NAU",))
        l += twins(g, 90 * k, LEVELS)
    elif prop == "C05":
        l = flagged(g, (3, 4, 5)) + clients(g, 200 * k) + interleaved(g, 60 * k) + noncanonical(g, 60 * k) + big_infos(g, 2 * k, (3, 5)) + built_challenges(g, 30 * k)
        l += crowded(g, 7 * k, (3, 4, 5)) + lasting(g, 300, (3, 4, 5), ("NAU", "U"))
        l += twins(g, 90 * k, (3, 4, 5))
    elif prop == "C06":
        l = [fresh(g, 110 * (1 if tier == "quick" else 4), i == 1) for i in range(2)]
        # eight threads, the same account and challenge
        a, m = dict(g.ident(True), c=0, level=3), g.chal(flags=word(["UNICODE", "ESS", "KEY_EXCH", "SIGN", "TARGET_INFO"]))
        for w, rep in (("NAUU", 10), ("NA" + "U" * 12, 12)) * k:
            l.append({"ops": [g.clock()], "par": [[dict(a, level=3 - i % 2 * 2)] + play(g, 0, w, lambda: m) for i in range(8)], "rep": rep})
    elif prop == "C07":
        l = flagged(g) + clients(g, 300 * k, (1, 2, 3, 4, 5)) + single_bits(g, (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)) + interleaved(g, 40 * k)
        l += lasting(g, 300, (1, 2, 3, 4, 5), ("NAU", "U"))
        l += twins(g, 60 * k, (1, 2, 3, 4, 5))
    elif prop == "C08":
        l = roundtrips(g, 250 * k, wf=1) + text_sweep(g)
        l += crowded(g, 7 * k)
    elif prop == "C09":
        l = decodes(g, 250 * k, mutated=.8) + answered(g, 60 * k) + truncations(g, KINDS) + huge(g, [65487 - 1, 65488 - 1, 65491, 65400])
        l += crowded(g, 7 * k, LEVELS) + deep(g, 12)
    elif prop == "C10":
        l = decodes(g, 300 * k, mutated=.55) + truncations(g, ["neg", "chal", "auth", "av", "shd"])
        l += crowded(g, 7 * k)
    elif prop == "C11":
        l = roundtrips(g, 120 * k, wf=.6) + encodes(g, 120 * k) + clients(g, 150 * k) + interleaved(g, 50 * k) + hostnames(g, (0, 3))[::3] + text_sweep(g)
        l += crowded(g, 7 * k, LEVELS) + lasting(g, 300, LEVELS, ("NAU", "U"))
        l += twins(g, 40 * k, LEVELS)
    elif prop == "C12":
        l = flagged(g, LEVELS if tier != "quick" else (0, 2, 3, 5)) + single_bits(g, (1, 4)) + clients(g, 200 * k) + built_challenges(g, 40 * k)
        l += lasting(g, 300, LEVELS, ("NAU", "U"))
        l += twins(g, 60 * k, LEVELS)
    elif prop == "C13":
        l = builders(g, 250 * k) + fills(g)
        l += crowded(g, 14 * k)
    elif prop == "C14":
        l = strict_flags(g, 150 * k) + decodes(g, 100 * k, ["neg", "chal", "auth", "flags"])
    elif prop == "C15":
        l = times(g, 300 * k)
    elif prop == "C16":
        l = accounts(g, (0, 3) if tier == "quick" else LEVELS) + hostnames(g, (1, 4)) + clients(g, 150 * k) + interleaved(g, 40 * k, False)
        l += lasting(g, 300, LEVELS, ("NAU", "N"))
        l += twins(g, 60 * k, LEVELS)
    elif prop == "C17":
        l = objects(g, 400 * k)
    elif prop == "C18":
        l = flag_ops(g, 200 * k)
    elif prop == "C19":
        l = secrets(g, 150 * k)
        l += twins(g, 40 * k, LEVELS)
    elif prop == "C20":
        l = hostnames(g, LEVELS if tier != "quick" else (0, 1, 3)) + accounts(g, (0, 3)) + passwords(g, LEVELS) + long_names(g, (0, 3) if tier == "quick" else LEVELS) + clients(g, 150 * k)
        l += lasting(g, 300, LEVELS) + lasting(g, 66000, LEVELS, ("N", "A", "U"))
        l += twins(g, 60 * k, LEVELS)
    elif prop == "C21":
        l = levels_words(g, 5 if tier == "quick" else 6, LEVELS if tier != "quick" else LEVELS)[:: 3 if tier == "quick" else 1] + clients(g, 150 * k) + interleaved(g, 80 * k, False) + accounts(g, LEVELS)
        l += lasting(g, 300, LEVELS) + lasting(g, 66000, LEVELS, ("N",))
        l += twins(g, 60 * k, LEVELS)
    elif prop == "C23":
        l = clients(g, 120 * k) + restless(g, 150 * k) + interleaved(g, 80 * k, False, 20) + accounts(g, (0, 3))[::2] + hostnames(g, (1, 4))[::2] + flagged(g, (0, 2, 3))[::2] + noncanonical(g, 30 * k) + built_challenges(g, 40 * k)
        l += lasting(g, 300, LEVELS) + crowded(g, 7 * k, LEVELS)
        l += twins(g, 120 * k, LEVELS)
    elif prop == "C24":
        l = sealed(g, 250 * k)
    elif prop == "C25":
        d = draws(g, 100 * k)
        l = [d, {"ops": [g.clock()] + draws(g, 30), "par": [[{"op": "rand", "kind": x, "n": 3} for x in sorted(BUFFERS)] for _ in range(8)], "rep": 4 * k}]
    elif prop == "C27":
        l = concurrent(g, 70 * k) + bursts(g, 10 * k) + moved(g, 150 * k)
    elif prop == "C26":
        l = conversions(g, 150 * k)
    return numbered("gen", l, prop == "C19")
