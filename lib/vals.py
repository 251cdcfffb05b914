"""Values of the specification in the JSON form that the harness and Judge.tla read, and random
scenarios over them. Nothing here knows what the right behaviour is."""
import random

FLAG = dict(UNICODE=0, OEM=1, REQUEST_TARGET=2, R10=3, SIGN=4, SEAL=5, DATAGRAM=6, LM_KEY=7, R9=8,
            NTLM=9, R8=10, ANONYMOUS=11, OEM_DOMAIN=12, OEM_WORKSTATION=13, R7=14, ALWAYS_SIGN=15,
            TARGET_DOMAIN=16, TARGET_SERVER=17, R6=18, ESS=19, IDENTIFY=20, R5=21, NON_NT=22,
            TARGET_INFO=23, R4=24, VERSION=25, R3=26, R2=27, R1=28, N128=29, KEY_EXCH=30, N56=31)
RESERVED = [k for k in FLAG if k[0] == 'R' and k[1:].isdigit()]


ERRNOS = [1, 2, 5, 12, 13, 20, 21, 24, 40]


def word(names):
    w = 0
    for n in names:
        w |= 1 << (FLAG[n] if isinstance(n, str) else n)
    return w


def be(w):
    return "%08x" % (w & 0xffffffff)


def txt(s):
    return [ord(c) for c in s]


def untxt(t):
    return "".join(chr(c) for c in t)


# -- encoders used to make challenges and messages in any layout (inputs only)

def le(n, size):
    return int(n).to_bytes(size, "little")


def u16s(t):
    return "".join(chr(c) for c in t).encode("utf-16-le", "surrogatepass")


def enc_ver(v):
    return bytes([v[0], v[1]]) + le(v[2], 2) + b"\0\0\0" + bytes([v[3]])


def enc_ft(f):
    return le(int(f[1], 16), 4) + le(int(f[0], 16), 4)


def enc_shd(s):
    return (bytes.fromhex(s["size"])[::-1] + bytes.fromhex(s["z4"])[::-1]
            + bytes.fromhex(s["cd"]) + bytes.fromhex(s["mi"]))


def av_value(p):
    i = p["id"]
    if i == 0:
        return b""
    if i in (1, 2, 3, 4, 5, 9):
        return u16s(p["t"])
    if i == 6:
        return bytes([p["f"][0] + 2 * p["f"][1] + 4 * p["f"][2], 0, 0, 0])
    if i == 7:
        return enc_ft(p["ft"])
    if i == 8:
        return enc_shd(p["shd"])
    return bytes.fromhex(p["b"])


def enc_av(p):
    v = av_value(p)
    return le(p["id"], 2) + le(len(v), 2) + v


def enc_avs(l):
    return b"".join(enc_av(p) for p in l)


def enc_lm(x):
    return bytes.fromhex(x["r"]) + (bytes.fromhex(x["cc"]) if x["v"] == 2 else b"")


def enc_blob(x):
    return (b"\1\1\0\0\0\0\0\0" + enc_ft(x["ts"]) + bytes.fromhex(x["cc"]) + b"\0\0\0\0" + enc_avs(x["ti"]))


def enc_nt(x):
    if x["v"] == 1:
        return bytes.fromhex(x["r"])
    if x["v"] == 2:
        return enc_blob(x)
    return bytes.fromhex(x["p"]) + enc_blob(x)


def message(head, descs, tail, fields, layout, rng=None):
    """head + descriptors put where the list `descs` says; see layouts below.
    `head` is a bytearray with room for the descriptors, `descs` their positions, `fields` the
    payloads (None: absent), `tail` what follows the fixed part (version, MIC)."""
    b = bytearray(head) + bytearray(tail)
    order = list(range(len(fields)))
    if layout in ("swap", "wild"):
        rng.shuffle(order)
    for i in order:
        f = fields[i]
        if f is None:
            continue
        if layout in ("gap", "wild") and rng.random() < 0.7:
            b += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
        at = len(b)
        if layout == "far" and rng.random() < 0.5:
            b += bytes(66000 - len(b) if len(b) < 66000 else 0)
            at = len(b)
        if layout in ("overlap", "wild") and rng.random() < 0.5 and bytes(b).find(f) >= 0:
            at = bytes(b).find(f)
        else:
            b += f
        mx = len(f)
        if layout in ("max", "wild") and rng.random() < 0.5:
            mx = rng.choice([0, 0xffff, len(f) + 2, rng.randrange(65536)])
        b[descs[i]:descs[i] + 8] = le(len(f) & 0xffff, 2) + le(mx & 0xffff, 2) + le(at, 4)
    if layout in ("absent", "wild"):
        # an absent field may have any maximum length and offset
        for i in order:
            if fields[i] is None:
                b[descs[i]:descs[i] + 8] = b"\0\0" + bytes(rng.randrange(256) for _ in range(6))
    if layout in ("trail", "wild"):
        b += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 20)))
    return bytes(b)


LAYOUTS = ["canon", "swap", "gap", "overlap", "max", "absent", "trail", "wild"]
SIG = b"NTLMSSP\0"


def opt(f, o):
    return f(o[0]) if o else None


def enc_chal(m, layout="canon", rng=None, reserved=b"\0" * 8):
    head = SIG + le(2, 4) + b"\0" * 8 + bytes.fromhex(m["flags"])[::-1] + bytes.fromhex(m["sc"]) + reserved + b"\0" * 8
    ver = opt(enc_ver, m["ver"]) or b""
    return message(head, [12, 40], ver, [opt(u16s, m["tn"]), enc_avs(m["ti"]) if m["ti"] else None], layout, rng)


def enc_neg(m, layout="canon", rng=None):
    head = SIG + le(1, 4) + bytes.fromhex(m["flags"])[::-1] + b"\0" * 16
    ver = opt(enc_ver, m["ver"]) or b""
    u = lambda t: untxt(t).encode()
    return message(head, [16, 24], ver, [opt(u, m["dom"]), opt(u, m["ws"])], layout, rng)


def enc_auth(m, layout="canon", rng=None):
    head = SIG + le(3, 4) + b"\0" * 48 + bytes.fromhex(m["flags"])[::-1]
    tail = (opt(enc_ver, m["ver"]) or b"") + bytes.fromhex(m["mic"])
    fs = [opt(enc_lm, m["lm"]), opt(enc_nt, m["nt"]), opt(u16s, m["dom"]), opt(u16s, m["user"]),
          opt(u16s, m["ws"]), opt(bytes.fromhex, m["key"])]
    return message(head, [12, 20, 28, 36, 44, 52], tail, fs, layout, rng)


def enc_sig(m):
    return le(1, 4) + bytes.fromhex(m["pad"]) + bytes.fromhex(m["sum"])[::-1] + bytes.fromhex(m["seq"])[::-1]


def enc(kind, v, layout="canon", rng=None):
    if kind == "neg":
        return enc_neg(v, layout, rng)
    if kind == "chal":
        return enc_chal(v, layout, rng)
    if kind == "auth":
        return enc_auth(v, layout, rng)
    return {"ver": enc_ver, "flags": lambda v: bytes.fromhex(v)[::-1], "ft": enc_ft, "av": enc_av,
            "avs": enc_avs, "avflags": lambda f: bytes([f[0] + 2 * f[1] + 4 * f[2], 0, 0, 0]),
            "shd": enc_shd, "sig": enc_sig, "lm": enc_lm, "lm1": enc_lm, "lm2": enc_lm,
            "nt": enc_nt, "nt1": enc_nt, "nt2": enc_nt, "nt3": enc_nt}[kind](v)


# what text processing tends to treat specially
SPECIALS = [0xfeff, 0xfffe, 0xffff, 0xfffd, 0x200b, 0x200d, 0x200e, 0x202e, 0x2028, 0x2029, 0x85, 0xa0, 0xad, 0x3000, 0x130, 0x131, 0x3c2, 0x345, 0x301, 0x308,
            0x1e9e, 0xfb01, 0x10ffff, 0x10000, 0xe000, 0xd7ff, 1, 8, 9, 10, 13, 27, 32, 34, 39, 44, 46, 47, 58, 64, 92, 0x7f, 0x80, 0xff, 0x100, 0x61, 0x41, 0x49, 0x69]


KINDS = ["neg", "chal", "auth", "ver", "flags", "ft", "av", "avs", "avflags", "shd", "sig",
         "lm", "lm1", "lm2", "nt", "nt1", "nt2", "nt3"]

ALPHABETS = [
    "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "aZ09 -_.$!#%&'()+,;=[]{}~^`",
    "äöüéèñçøåÄÖÜ", "ßŉǰΐŷÿſ", "αβγδεςσωΑΒΓΩ", "абвгдеёжАБВГ", "日本語中文字한국어", "\U0001f600\U0001f4a9\U00010400\U00010428\U0001d54f\U000e0001",
    "\u0130\u0131\u0149\u01c5\u01c6\u1e9e\ufb00\ufb03\uff41\uff5a", "\u00ff\u0100\u0101\u07ff\u0800\ufffd\ufffe\uffff\ud7ff\ue000",
]


# names and passwords that somebody might give a meaning
MAGIC = ["localhost", "localhost.localdomain", ".", "..", "*", "(none)", "WORKGROUP", "MSHOME", "BUILTIN", "NT AUTHORITY", "SYSTEM", "Administrator", "administrator",
         "Guest", "guest", "anonymous", "ANONYMOUS LOGON", "root", "admin", "null", "NULL", "none", "-", "?", "0", "1", "true", "127.0.0.1", "[::1]", "u+tag", "first.last", "svc$", "PC$",
         "%USERNAME%", "$USER", "${HOME}", "%41", "\u0041", "a:b", "a;b", "a/b", "a,b", "'q'", '"q"', "<x>", "CN=x,DC=y", "http/host", "u\uff20d", "d\uff3cu", "\u00a5", "x" * 15, "x" * 16, "X" * 20,
         "y" * 21, "k.Corp.Example.COM", "dom.", ".dom", "d d", " lead", "trail ", "tab\t", "nl\n", "crlf\r\n", "\ufeffbom", "e\u0301", "\u00e9", "stra\u00dfe", "STRASSE", "\u212aelvin", "\u0130i\u0131I"]
# several labels, and what ends them
SHAPED = ["corp.example.com.", "corp.example.com", ".corp.example.com", "a.b", "a.b.", "a..b", "example.com$", "_ldap._tcp.corp", "xn--bcher-kva.de", "CORP.LOCAL", "corp.local.", "NTLMSSP", "NTLMSSP\0", "KGS!@#$%",
          "S-1-5-18", "{00000000-0000-0000-0000-000000000000}", "user@corp.example.com.", "corp.example.com.\\user", "DOMAIN$", "PC-01$", "1.2.3.4", "fe80::1", "c\u00f6rp.example.com.", "a.b.c.d.e.f.g"]
MAGIC += SHAPED
MAGICPW = ["aad3b435b51404eeaad3b435b51404ee", "31d6cfe0d16ae931b73c59d7e0c089c0", "aad3b435b51404eeaad3b435b51404ee:31d6cfe0d16ae931b73c59d7e0c089c0", ":31d6cfe0d16ae931b73c59d7e0c089c0",
           "AAD3B435B51404EEAAD3B435B51404EE", "{SHA}x", "{HEX}00", "0x00", "base64:UGFzcw==", "UGFzc3cwcmQ=", "file:///x", "@x", "env:X", "pass\n", "pass\r\n", "\npass", "\tpass", "pass\t", "********", "changeme",
           "\u0000", "a\u0000b", "\ufeffpass", "\u00a0", "\u2003", "ABCDEFG\u0000", "KGS!@#$%", "KGS!+#$%", "password", "PASSWORD",
           # NT hashes with zeros in the middle, at the front, at the end (a third DES key of zeros), with ones at the front
           "pw26993", "pw60983", "pw129497", "pw96377"]
# services that somebody might treat in another way
SPN = ["http/www.example.com", "HTTP/www", "http", "https/www:443", "cifs/files", "CIFS/files.corp.example.com", "host/pc", "HOST/PC$", "ldap/dc01.corp/corp", "LDAP/dc", "MSSQLSvc/db:1433", "smtp/mail", "SMTPSVC/mail",
       "imap/mail", "pop/mail", "TERMSRV/ts", "WSMAN/ws", "RPCSS/pc", "krbtgt/CORP", "GC/dc/corp", "DNS/ns", "nfs/nfs", "proxy/p", "*", "", "/", "http/", "/www", "localhost", "http/localhost", "http/127.0.0.1", "https://www/"]
SPECIALCHAL = ["0123456789abcdef", "1122334455667788", "deadbeefdeadbeef", "0000000000000001", "8000000000000000", "efcdab8967452301", "4e544c4d53535000"]


class Gen:
    def __init__(self, seed, prop):
        self.r = random.Random("%s:%s" % (seed, prop))
        self.loaded = False
        self.names, self.hexes = [], {}      # the last ones

    # -- texts and bytes
    def text(self, n=None, kind=None, avoid=""):
        r = self.r
        if n is None:
            n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 12, 15, 20])
        if kind == "ascii":
            al = ALPHABETS[0] + ALPHABETS[1] + "0123456789-_."
        elif kind == "word":
            al = ALPHABETS[0] + ALPHABETS[1] + "0123456789"
        elif kind == "print":
            al = "".join(map(chr, range(33, 127)))
        else:
            al = "".join(r.sample(ALPHABETS, r.choice([1, 1, 2, 3])))
        al = [c for c in al if c not in avoid]
        t = [ord(r.choice(al)) for _ in range(n)]
        if kind is None and t and r.random() < .3:
            c = r.choice(SPECIALS)
            if chr(c) not in avoid:
                for i in r.choice([[0], [0], [-1], [-1], [0, -1], [r.randrange(n)], range(n)]):
                    t[i] = c
        return t

    def name(self, avoid="", nonempty=False):
        """now and then one that was used just before"""
        r = self.r
        if self.names and r.random() < .12:
            t = list(r.choice(self.names[-4:]))
            if (t or not nonempty) and not any(chr(c) in avoid for c in t):
                return t
        t = self.new_name(avoid, nonempty)
        self.names = self.names[-9:] + [t]
        return t

    def new_name(self, avoid, nonempty):
        r = self.r
        if r.random() < .07:
            t = txt(r.choice(MAGIC))
            if not any(chr(c) in avoid for c in t):
                return t
        n = r.choice([1, 2, 3, 5, 8, 11, 15, 16, 20, 31, 64, 127, 130, 300] if nonempty or r.random() < .9 else [0])
        return self.text(n, r.choice(["ascii", "word", "print", None, None]), avoid)

    def password(self):
        r = self.r
        if r.random() < .08:
            return txt(r.choice(MAGICPW + MAGIC))
        n = r.choice([0, 1, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 20, 32, 64, 128, 256])
        return self.text(n, r.choice(["word", "print", "print", "ascii", None]))

    def hex(self, n):
        k = self.r.random()
        if k < 0.06:
            return "00" * n
        if k < 0.1:
            return "ff" * n
        seen = self.hexes.setdefault(n, [])
        if seen and k < .16:
            return self.r.choice(seen)
        if n == 8 and k < .18:
            return self.r.choice(SPECIALCHAL)
        x = "".join("%02x" % self.r.randrange(256) for _ in range(n))
        if k < .2:      # a part of it zero, or one byte over and over
            z = self.r.randrange(1, n + 1)
            x = self.r.choice([lambda: "00" * z + x[2 * z:], lambda: x[2 * z:] + "00" * z, lambda: x[:2] * n, lambda: x[:2 * z - 2] + "00" + x[2 * z:]])()
        self.hexes[n] = seen[-3:] + [x]
        return x

    def target(self):
        return txt(self.r.choice(SPN)) if self.r.random() < .4 else self.text(kind="ascii")

    def dice(self):
        """what a client challenge and a session key may happen to be"""
        cc = self.r.choice([lambda: self.hex(8), lambda: self.hex(8), lambda: "01010000" + "00000000", lambda: "%02x" % self.r.randrange(256) + "00" * 7, lambda: self.r.choice(SPECIALCHAL)])()
        return cc + self.hex(16)

    def u32(self):
        r = self.r
        return be(r.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(32), r.getrandbits(8)]))

    def opt(self, f, p=0.5):
        return [f()] if self.r.random() < p else []

    def ver(self, wf=True):
        r = self.r
        return [r.choice([0, 5, 6, 10, 255, r.randrange(256)]), r.randrange(256), r.choice([0, 1, 255, 256, 2600, 7601, 65535, r.randrange(65536)]),
                15 if wf or r.random() < .7 else r.randrange(256)]

    def ft(self):
        r = self.r
        k = r.random()
        if k < .15:
            n = r.choice([0, 1, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64 - 1, 116444736000000000, 116444735999999999,
                          116444736000000001, 0x019db1ded53e8000 + 1])
        elif k < .6:
            n = 132000000000000000 + r.randrange(10**16)
        else:
            n = r.getrandbits(64)
        return [be(n >> 32), be(n & 0xffffffff)]

    def shd(self, wf=True):
        return {"size": self.u32() if not wf else self.r.choice(["00000030", self.u32()]), "z4": "00000000" if wf or self.r.random() < .5 else self.u32(),
                "cd": self.hex(8), "mi": self.hex(32)}

    def avflags(self):
        return [self.r.randrange(2) for _ in range(3)]

    def av(self, ids=None, wf=True, n=None):
        i = self.r.choice(ids or [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        if i == 0:
            return {"id": 0}
        if i in (1, 2, 3, 4, 5, 9):
            return {"id": i, "t": self.name() if n is None and self.r.random() < .15 else self.text(n)}
        if i == 6:
            return {"id": 6, "f": self.avflags()}
        if i == 7:
            return {"id": 7, "ft": self.ft()}
        if i == 8:
            return {"id": 8, "shd": self.shd(wf)}
        return {"id": 10, "b": self.hex(16)}

    def avs(self, wf=True, eol=True, big=False):
        """what a server sends: any items, then the terminator"""
        r = self.r
        if big:
            l = [self.av([1, 2, 3, 4, 5, 9], n=r.randrange(200, 3000)) for _ in range(r.randrange(1, 5))]
            if r.random() < .5:
                l.insert(r.randrange(len(l) + 1), {"id": 7, "ft": self.ft()})
        else:
            k = r.random()
            if k < .07:
                l = []
            elif k < .4:     # as Windows sends it
                l = [{"id": i, "t": self.text(r.randrange(1, 16), "word")} for i in (2, 1, 4, 3, 5)][:r.randrange(1, 6)]
                if r.random() < .6:
                    l.append({"id": 7, "ft": self.ft()})
            else:
                l = [self.av(wf=wf) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 10] if r.random() < .96 else [16, 17, 33, 70]))]
                if r.random() < .25:
                    l.insert(r.randrange(len(l) + 1), {"id": 7, "ft": self.ft()})
                if r.random() < .08:
                    l.insert(r.randrange(len(l) + 1), {"id": 0})
        return l + [{"id": 0}] if eol and (l or r.random() < .3) else l

    def flags(self, must=(), never=(), mode=None):
        r = self.r
        mode = mode or r.choice(["server", "server", "key", "random"])
        if mode == "server":
            w = word(["UNICODE", "REQUEST_TARGET", "NTLM", "TARGET_INFO"])
            for n in ["SIGN", "SEAL", "ALWAYS_SIGN", "ESS", "N128", "KEY_EXCH", "N56", "TARGET_SERVER", "TARGET_DOMAIN", "OEM", "LM_KEY", "NON_NT", "DATAGRAM", "IDENTIFY"]:
                if r.random() < (.15 if n in ("OEM", "LM_KEY", "NON_NT", "DATAGRAM", "IDENTIFY", "TARGET_DOMAIN") else .6):
                    w |= word([n])
        elif mode == "key":
            w = 0
            for n in ["UNICODE", "OEM", "SIGN", "SEAL", "ESS", "LM_KEY", "NON_NT", "KEY_EXCH", "NTLM", "TARGET_INFO", "N128", "N56", "ANONYMOUS", "REQUEST_TARGET"]:
                if r.random() < .5:
                    w |= word([n])
        else:
            w = r.getrandbits(32)
        w |= word(must)
        w &= ~word(never)
        return w

    def chal(self, wf=True, big=False, flags=None, ti=None):
        r = self.r
        w = self.flags() if flags is None else flags
        if wf:
            ver = [self.ver()] if w >> FLAG["VERSION"] & 1 else []
        else:
            ver = self.opt(lambda: self.ver(False))
        tn = self.opt(lambda: self.name(nonempty=wf) if wf else self.name(), .6)
        return {"tn": tn, "flags": be(w), "sc": self.hex(8), "ti": self.avs(wf, True, big) if ti is None else ti, "ver": ver}

    def sibling(self, m):
        """a challenge that differs from m in one component"""
        r = self.r
        m = dict(m)
        w = int(m["flags"], 16)
        k = r.choice(["sc", "sc", "bit", "bit", "tn", "ti", "ti", "ver", "byte"])
        if k == "sc":
            m["sc"] = self.hex(8)
        elif k == "byte":
            b = bytearray.fromhex(m["sc"])
            b[r.randrange(8)] ^= 1 << r.randrange(8)
            m["sc"] = bytes(b).hex()
        elif k == "bit":
            w ^= 1 << r.choice([b for b in range(32) if b != FLAG["VERSION"]])
            m["flags"] = be(w)
        elif k == "tn":
            m["tn"] = [] if m["tn"] and r.random() < .4 else [self.name(nonempty=True)]
        elif k == "ver":
            m["ver"] = [] if m["ver"] and r.random() < .5 else [self.ver()]
            m["flags"] = be(w | 1 << FLAG["VERSION"] if m["ver"] else w & ~(1 << FLAG["VERSION"]))
        else:
            l = [dict(p) for p in m["ti"]]
            x = r.random()
            i = r.randrange(len(l)) if l else 0
            if not l or x < .2:
                l = self.avs()
            elif x < .4 and l[i]["id"]:
                del l[i]
            elif x < .6:
                l.insert(i, self.av())
            elif l[i]["id"]:
                l[i] = self.av([l[i]["id"]])
            m["ti"] = l
        return m

    def neg(self, wf=True):
        r = self.r
        w = self.flags(mode=r.choice(["key", "random"]))
        ver = ([self.ver()] if w >> FLAG["VERSION"] & 1 else []) if wf else self.opt(lambda: self.ver(False))
        return {"flags": be(w), "dom": self.opt(lambda: self.name(nonempty=wf)), "ws": self.opt(lambda: self.name(nonempty=wf)), "ver": ver}

    def lm(self, v=None):
        v = v or self.r.choice([1, 2])
        x = self.hex(24)      # shaped as a whole
        if self.r.random() < .15:
            k = self.r.choice([1, 2, 4, 8, 16])
            x = self.r.choice([x[:2 * k] + "00" * (24 - k), "00" * (24 - k) + x[:2 * k]])
        return {"v": 1, "r": x} if v == 1 else {"v": 2, "r": x[:32], "cc": x[32:]} if self.r.random() < .5 else {"v": 2, "r": self.hex(16), "cc": self.hex(8)}

    def nt(self, v=None, wf=True):
        v = v or self.r.choice([1, 2, 3])
        if v == 1:
            x = self.hex(24)
            return {"v": 1, "r": x}
        l = self.avs(wf)
        if self.r.random() < .5 and l:
            l = l + [{"id": 0}]
        x = {"v": v, "ts": self.ft(), "cc": self.hex(8), "ti": l}
        if self.r.random() < .06:      # looks like the start of a response where another kind has its own
            x["cc"], x["ti"] = "0101000000000000", [{"id": 0}] * self.r.choice([0, 1, 4, 5, 7])
        if v == 3:
            x["p"] = self.hex(16)
        return x

    def auth(self, wf=True):
        r = self.r
        w = self.flags(mode=r.choice(["key", "random", "server"]))
        gen = r.choice([1, 2])
        lm = self.opt(lambda: self.lm(gen if wf else None), .7)
        nt = self.opt(lambda: self.nt(1 if gen == 1 else r.choice([2, 3, 3]), wf) if wf else self.nt(wf=False), .7)
        if wf and lm and not nt:
            w = w | word(["NTLM"]) if gen == 1 else w & ~word(["NTLM"])
        key = self.opt(lambda: self.hex(16))
        if wf and key:
            w |= word(["KEY_EXCH"])
        ver = ([self.ver()] if w >> FLAG["VERSION"] & 1 else []) if wf else self.opt(lambda: self.ver(False))
        nm = lambda: self.name(nonempty=wf)
        return {"lm": lm, "nt": nt, "dom": self.opt(nm), "user": self.opt(nm), "ws": self.opt(nm), "key": key,
                "flags": be(w), "ver": ver, "mic": self.hex(16)}

    def val(self, kind, wf=True):
        return {"neg": lambda: self.neg(wf), "chal": lambda: self.chal(wf), "auth": lambda: self.auth(wf), "ver": lambda: self.ver(wf),
                "flags": self.u32, "ft": self.ft, "av": lambda: self.av([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], wf),
                "avs": lambda: self.avs(wf, self.r.random() < .7), "avflags": self.avflags, "shd": lambda: self.shd(wf),
                "sig": lambda: {"pad": self.hex(4), "sum": self.u32(), "seq": self.u32()},
                "lm": self.lm, "lm1": lambda: self.lm(1), "lm2": lambda: self.lm(2),
                "nt": lambda: self.nt(wf=wf), "nt1": lambda: self.nt(1), "nt2": lambda: self.nt(2, wf), "nt3": lambda: self.nt(3, wf)}[kind]()

    # -- raw bytes: messages in any layout, and broken ones
    def raw(self, kind, layout=None):
        v = self.val(kind, self.r.random() < .8)
        if kind == "chal" and v["ti"] == [] and self.r.random() < .3:
            v["ti"] = [self.av()]
        return bytearray(enc(kind, v, layout or self.r.choice(LAYOUTS), self.r))

    DESC = {"neg": [16, 24], "chal": [12, 40], "auth": [12, 20, 28, 36, 44, 52]}

    def mutate(self, kind, b):
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            k = r.random()
            if kind in self.DESC and k < .45 and len(b) >= 64:
                d = r.choice(self.DESC[kind])
                n = len(b)
                ln, off = b[d] + 256 * b[d + 1], int.from_bytes(b[d + 4:d + 8], "little")
                if r.random() < .5:
                    b[d:d + 2] = le(r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 24, 25, 43, 44, ln + 1, ln - 1, n, n - off if n > off else 0, n - off + 1, 0x7fff, 0x8000, 0xffff]) & 0xffff, 2)
                else:
                    b[d + 4:d + 8] = le(r.choice([0, 1, 8, 12, 31, 32, 48, 64, n, n + 1, n - 1, n - ln, n - ln + 1, off + 1, off - 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffff - ln, 0x100000000 - ln]) & 0xffffffff, 4)
            elif k < .55 and b:
                b = b[:r.randrange(len(b) + 1)]
            elif k < .75 and b:
                i = r.randrange(len(b))
                b[i] = r.choice([0, 1, 0xff, 0x80, 0xd8, 0xdc, b[i] ^ (1 << r.randrange(8)), r.randrange(256)])
            elif k < .85:
                i = r.randrange(len(b) + 1)
                b[i:i] = bytes(r.randrange(256) for _ in range(r.randrange(1, 5)))
            elif k < .95 and b:
                i = r.randrange(len(b))
                del b[i:i + r.randrange(1, 5)]
            elif b:
                # a NUL, a lone surrogate or a chosen id somewhere
                i = r.randrange(len(b))
                for j, x in enumerate(r.choice([b"\0\0", b"\0\xd8", b"\0\xdc", b"\xff\xdb\xff\xdf", b"\x0b\0", b"\xff\xff", b"\x07\0\x08\0", b"\x06\0\x04\0", b"\x00\0\x00\0", b"\x0a\0\x10\0"])):
                    if i + j < len(b):
                        b[i + j] = x
        return b

    def ident(self, plain=False):
        """client creation: the operation without slot and level"""
        r = self.r
        if plain and r.random() > .06:
            u, d, p = self.text(r.randrange(1, 12), "word"), self.text(r.choice([0, 1, 5, 9]), "word"), self.text(r.randrange(1, 20), "word")
        else:
            u, d, p = self.name(), self.opt(self.name, .8), self.password()
            d = d[0] if d else []
        if r.random() < .2:      # something is empty
            k = r.randrange(1, 8)
            u, d, p = [] if k & 1 else u, [] if k & 2 else d, [] if k & 4 else p
        op = {"op": "new", "pw": p, "target": self.target()}
        if r.random() < .4:
            style = r.randrange(3)
            u2 = [c for c in u if c not in (64, 92)]
            d2 = [c for c in d if c not in (64, 92)]
            acct = d2 + [92] + u2 if style == 0 else u2 + [64] + d2 if style == 1 else u2
            op.update(via="account", acct=acct)
        else:
            op.update(via="parts", user=u, dom=d)
        return op

    def env(self):
        """operations that set the environment"""
        r = self.r
        ops = []
        if r.random() < .5:
            v = r.choice([lambda: untxt(self.name()).encode(), lambda: b"WORK-1", lambda: b"", lambda: bytes([0xff, 0xfe, 65])])()
            v = v.replace(b"\0", b"")
            ops.append({"op": "env", "k": "COMPUTERNAME", "v": [v.hex()]})
        if r.random() < .7:
            ops.append({"op": "host", "v": [self.hostname().hex()]})
        elif r.random() < .4:
            ops.append({"op": "host", "v": [], "err": r.choice(ERRNOS)})
        if r.random() < .3:
            ops.append(self.clock())
        return ops

    def clock(self):
        """the clock stands still at some moment, or runs again"""
        r = self.r
        if r.random() < .15:
            return {"op": "clock", "t": []}
        s = r.choice([0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 910692730085, r.getrandbits(31), r.getrandbits(33), r.getrandbits(39), 1700000000 + r.getrandbits(28)])
        return {"op": "clock", "t": [["%016x" % s, r.choice([0, 1, 99, 100, 999999999, 999999900, r.randrange(10**9)])]]}

    def hostname(self):
        r = self.r
        base = untxt(self.text(r.randrange(0, 12), r.choice(["word", "word", None])))
        k = r.randrange(14)
        s = [base, base + "\n", base + ".example.org\n", "  " + base + " \n", base + "\r\n", "\n" + base + "\n", "." + base + "\n", base + " . x\n",
             base + "\nsecond\n", "\t" + base + "\u00a0.dom", "", "\n", "...", base + "\r"][k]
        b = s.encode()
        if r.random() < .06:
            b += b"\xff"
        return b
