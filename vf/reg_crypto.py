"""C01-C07: ciphers, modes, hashes, HMAC, CRC, random stream."""
from core import Query

HASHES = ["MD5", "SHA1", "SHA2224", "SHA2256", "SHA2384", "SHA2512", "SHA3", "SHA3224", "SHA3256", "SHA3384", "SHA3512"]
HSRC = ["wizard/hash.c", "wizard/string.c"] + ["wizard/%s.c" % f for f in
        ("md5", "sha1", "sha2224", "sha2256", "sha2384", "sha2512", "sha3", "crc64")]
RATE = {"SHA3": 128, "SHA3224": 144, "SHA3256": 136, "SHA3384": 104, "SHA3512": 72}


def block(t):
    return RATE.get(t) or (128 if t in ("SHA2384", "SHA2512") else 64)


def register(add, assume):
    def hashq(name, t, lens, defs=(), **kw):
        kw.setdefault("timeout", 250)
        add("C04", Query("%s-%s" % (t.lower(), name), "hash.c", "h_hash", src=HSRC,
            hdefs=["TYPE=%sHash" % t, "VF_LENS=" + ",".join(map(str, lens))] + list(defs), unwind=520, group=t,
            fields=150 if t.startswith("SHA3") else 1024,
            solver="sweep", bounds="%s, every message of %s bytes in updates of %s" % (t, sum(lens), "+".join(map(str, lens))) +
            (" (bytes after the last full 8 fixed)" if t.startswith("SHA3") and sum(lens) % 8 else "") + kw.pop("note", ""), **kw))

    for t in HASHES:
        b = block(t)
        pad = b // 8
        if t in RATE:
            # the last byte of a block, a whole block, pieces across a block
            hashq("one", t, (13, 0, b // 2 - 5), tier="quick" if t in ("SHA3224", "SHA3384") else "thorough")
            hashq("last", t, (b - 1,), tier="quick" if t == "SHA3256" else "thorough")
            hashq("full", t, (b,), tier="quick" if t == "SHA3512" else "thorough", timeout=400)
            hashq("cross", t, (b - 20, 30), tier="thorough", timeout=800)
            hashq("fill", t, (5, b - 5), tier="quick" if t == "SHA3" else "thorough", timeout=400)
            hashq("reuse", t, (64 if t == "SHA3512" else 8,), ["PRE=9"], tier="quick" if t == "SHA3512" else "thorough", timeout=400, note=", after an abandoned message of 9 bytes")
            hashq("again", t, (8,), ["PRE=9", "PREFINAL=1"], tier="thorough", timeout=800, note=", after a finished message of 9 bytes")
            continue
        hashq("split", t, (b - 14, 20, 20))
        hashq("whole", t, (b,))
        hashq("fits", t, (b - pad - 1,))
        hashq("spills", t, (b - pad,))
        hashq("fill", t, (5, b - 5), tier="thorough")
        hashq("reuse", t, (3,), ["PRE=%d" % (b + 6)], note=", after an abandoned message of %d bytes" % (b + 6))
        hashq("again", t, (b + 1,), ["PRE=%d" % (b - pad), "PREFINAL=1"], note=", after a finished message of %d bytes" % (b - pad))
        hashq("empty", t, (0,), tier="thorough")
        hashq("last", t, (b - 1,), tier="thorough")
        hashq("long", t, (1, 2 * b + 3, b, 7), tier="thorough", timeout=600)
        hashq("two", t, (2 * b,), tier="thorough", timeout=600)
        hashq("ones", t, (1,) * 9, tier="thorough")

    # ---- C05
    def hmacq(name, t, key, lens, defs=(), **kw):
        kw.setdefault("timeout", 300)
        add("C05", Query("%s-%s" % (t.lower(), name), "hash.c", "h_hmac", src=HSRC + ["wizard/hmac.c"],
            hdefs=["TYPE=%sHash" % t, "KEYLEN=%d" % key, "VF_LENS=" + ",".join(map(str, lens))] + list(defs), unwind=520,
            group=t, fields=150 if t.startswith("SHA3") else 1024, solver="sweep",
            bounds="HMAC-%s, every key of %d and message of %d bytes (updates %s)" % (t, key, sum(lens), "+".join(map(str, lens))) + kw.pop("note", ""), **kw))
    for t in HASHES:
        if t in RATE:
            continue  # two or three nested sponges: the sweep does not converge
        b = block(t)
        hmacq("short", t, 20, (9, 4), tier="thorough" if t == "SHA2384" else "quick")
        hmacq("block", t, b, (8,), tier="quick" if t in ("SHA1", "SHA2512") else "thorough")
        hmacq("over", t, b + 1, (8,))
        hmacq("rekey", t, 8, (8,), ["OLDKEY=%d" % (b - 3)], note=", after a computation with a longer key",
              tier="thorough" if t in ("SHA2224", "SHA2512") else "quick")
        hmacq("empty", t, 0, (0,), tier="thorough")
        hmacq("digest", t, {"MD5": 16, "SHA1": 20, "SHA2224": 28, "SHA2256": 32, "SHA2384": 48, "SHA2512": 64}[t], (b - 3, 5), tier="thorough")

    # ---- C06
    def crcq(name, lens, defs=(), **kw):
        add("C06", Query(name, "crc.c", "h_crc", src=["wizard/crc64.c", "wizard/string.c", "wizard/hash.c"] +
            ["wizard/%s.c" % f for f in ("md5", "sha1", "sha2224", "sha2256", "sha2384", "sha2512", "sha3")],
            defs=["VF_LENS=" + ",".join(map(str, lens))] + list(defs), unwind=260, timeout=kw.pop("timeout", 120),
            bounds="every message of %d bytes in updates of %s" % (sum(lens), "+".join(map(str, lens))) + kw.pop("note", ""), **kw))
    crcq("one", (1,))
    crcq("split", (2, 1))
    crcq("pieces", (1, 0, 3))
    crcq("empty", (0,))
    crcq("reuse", (3,), ["PRE=5"], note=", after an abandoned message of 5 bytes")
    crcq("again", (3,), ["PRE=5", "PREFINAL=1"], note=", after a finished message of 5 bytes")
    crcq("hash", (2, 2), ["VIAHASH=1"], note=", through HashInfo")
    crcq("eight", (8,))
    crcq("long", (4, 13), tier="thorough", timeout=600)

    # ---- C01, C02
    CSRC = ["wizard/string.c"]
    ALGS = {"aes": 1, "serpent": 2, "twofish": 3, "chacha": 4}

    def cq(pid, func, name, alg, key, defs=(), **kw):
        kw.setdefault("timeout", 200)
        kw.setdefault("solver", "sweep")
        add(pid, Query(name, "cipher.c", func, src=CSRC + ["wizard/%s.c" % alg], unwind=260,
            hdefs=["ALG=%d" % ALGS[alg], "KEYLEN=%d" % key] + list(defs), group=alg, **kw))
    for alg in ("aes", "serpent", "twofish", "chacha"):
        for n in (16, 24, 32):
            if alg == "chacha" and n == 24:
                continue
            if alg == "twofish":
                for seed in (1, 2, 5, 9, 23):
                    t = "quick" if seed == 5 else "thorough"
                    b = "every block, key number %d of %d bytes" % (seed, n)
                    cq("C01", "h_inverse", "twofish-%d-key%d" % (8 * n, seed), alg, n, ["FIXKEY=%d" % seed], bounds=b, tier=t)
                    cq("C02", "h_published", "twofish-%d-key%d" % (8 * n, seed), alg, n, ["FIXKEY=%d" % seed], bounds=b, tier=t)
                continue
            b = "every block, every key of %d bytes" % n + (", every nonce and counter" if alg == "chacha" else "")
            if alg == "serpent":
                cq("C01", "h_published_back", "serpent-%d-decipher" % (8 * n), alg, n, bounds=b)
                cq("C01", "h_published", "serpent-%d-encipher" % (8 * n), alg, n, bounds=b)
            else:
                cq("C01", "h_inverse", "%s-%d" % (alg, 8 * n), alg, n, bounds=b)
            cq("C02", "h_published", "%s-%d" % (alg, 8 * n), alg, n, bounds=b)
            cq("C02", "h_published", "%s-%d-rekey" % (alg, 8 * n), alg, n, ["OLDKEY=32"], bounds=b + ", after another key", tier="quick" if n == 16 and alg != "aes" else "thorough")
        cq("C01", "h_block", alg + "-blocksize", alg, 16, ["FIXKEY=5"], bounds="reported block length", solver=None)
    cq("C01", "h_reference", "serpent-reference", "serpent", 16, bounds="every block, all round keys")
    for n in (5, 31):
        cq("C02", "h_published", "serpent-%d" % (8 * n), "serpent", n, bounds="every block, every key of %d bytes" % n, tier="thorough")
        cq("C01", "h_published_back", "serpent-%d-decipher" % (8 * n), "serpent", n, bounds="every block, every key of %d bytes" % n, tier="thorough")

    # ---- C03
    def mq(func, name, mode, n, defs=(), **kw):
        kw.setdefault("timeout", 200)
        kw.setdefault("solver", "sweep")
        lens = n if isinstance(n, tuple) else (n,)
        add("C03", Query(name, "mode.c", func, src=["wizard/cipher.c", "wizard/string.c"], unwind=150,
            hdefs=["MODE=%sMode" % mode, "VF_LENS=" + ",".join(map(str, lens))] + list(defs), group=mode, fields=1024,
            bounds="%s mode, every key, nonce and message of %s bytes" % (mode, " and ".join(map(str, lens))), **kw))
    for mode in ("ECB", "CBC", "CFB", "OFB", "CTR"):
        for n in (0, 1, 15, 16, 17, 31, 32, 33, 50):
            mq("h_mode", "%s-%d" % (mode.lower(), n), mode, n, tier="quick" if n in (0, 15, 16, 33) else "thorough")
        mq("h_decipher", "%s-decipher" % mode.lower(), mode, 48)
        mq("h_twice", "%s-twice" % mode.lower(), mode, (17, 5))
        mq("h_nonce", "%s-nonce" % mode.lower(), mode, 0, solver=None)
        for c, alg in ((2, "serpent"), (3, "twofish"), (4, "chacha")):
            mq("h_mode", "%s-%s" % (mode.lower(), alg), mode, 3 if mode == "CFB" else 70, ["CIPHER=%d" % c], tier="quick" if mode in ("ECB", "CFB") else "thorough")
    mq("h_wrap", "ctr-wrap", "CTR", 0, solver=None)
    mq("h_wrap", "ctr-wrap-decipher", "CTR", 0, ["BACK=1"], solver=None)

    # ---- C07
    def rq(func, name, lens=(), defs=(), **kw):
        add("C07", Query(name, "random.c", func, src=["wizard/random.c", "wizard/string.c"], unwind=70, fields=1024,
            defs=["getentropy=vf_getentropy", "PARTS=%d" % len(lens)] + (["VF_LENS=" + ",".join(map(str, lens))] if lens else []) + list(defs),
            timeout=kw.pop("timeout", 200), stubs="keyed hash (numbers its blocks, 8 byte digest), reservoir file, system entropy", **kw))
    for lens in ((3, 5, 4), (1, 7, 1), (8, 8, 1), (9, 13, 3), (0, 16, 5), (7, 2, 8), (12, 12, 12), (1, 1, 13), (5, 3, 9), (6, 10, 8)):
        rq("h_stream", "stream-" + "-".join(map(str, lens)), lens, bounds="requests of %s bytes, every start of the counter" % ", ".join(map(str, lens)))
    rq("h_value", "value", (), ["BYTES"], bounds="every 8 stream bytes, up to 12 attempts")
    rq("h_pseudo", "pseudo", (), ["PSEUDO"], bounds="every 256 bit state, two values")
