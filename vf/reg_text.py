from core import Query as Q

def lens(make, name, combos, **kw):
    """one query per given combination of lengths"""
    return [make("%s-%s" % (name, "-".join(map(str, c))), lens=c, **kw) for c in combos]

def register(add, assume):
    # ---- C16 strings
    S = ["wizard/string.c"]
    PX = ["WizardPathExtent=16"]
    PXL = ["WizardPathExtent=160"]
    def T(name, func, n, lens=None, unwind=None, defs=(), px=PX, **kw):
        kw.setdefault("timeout", 150)
        b = "every content; "
        d = px + ["N=%d" % n] + list(defs)
        if lens is not None:
            d.append("VF_LENS=" + ",".join(map(str, lens)))
            b += "lengths %s" % (lens,)
        else:
            b += "every length up to about %d" % n
        kw.setdefault("bounds", b)
        return Q(name, "strings.c", func, src=S, defs=d, unwind=unwind or 2 * n + 6, **kw)
    add("C16", *lens(lambda name, lens, **kw: T(name, "h_copy", 12, lens, **kw), "copy",
        [(0, 3), (3, 0), (3, 1), (3, 3), (3, 4), (3, 5), (7, 4), (8, 9), (9, 5), (9, 9), (12, 8)]))
    add("C16", *lens(lambda name, lens, **kw: T(name, "h_concat", 8, lens, **kw), "concat",
        [(1, 0), (1, 2), (4, 3), (6, 0), (6, 3), (8, 7)]))
    add("C16",
        T("acquire", "h_acquire", 5),
        T("concatenate", "h_concatenate", 5),
        T("info-compare", "h_info_compare", 5),
        T("info-text", "h_info_text", 5),
        T("locale", "h_locale", 5))
    def I(func, n, name, combos, **kw):
        add("C16", *lens(lambda name, lens, **kw: T(name, func, n, lens, px=PXL, **kw), name, combos, **kw))
    I("h_info_concat", 6, "info-concat", [(0, 3), (3, 0), (2, 3), (5, 6)])
    I("h_info_split", 6, "info-split", [(0, 0), (0, 5), (2, 5), (5, 5), (6, 5)], unwind=140)
    I("h_info_set", 6, "info-set", [(0, 3, 2), (3, 0, 4), (3, 5, 2), (5, 3, 6)])
    add("C16", *lens(lambda name, lens, **kw: T(name, "h_strip", 7, lens, **kw), "strip", [(1,), (2,), (3,), (4,), (6,)]))
    small = ["VF_BYTEMEM=24", "VF_MAXALLOC=24", "memcpy=vf_memcpy", "memmove=vf_memmove"]
    def A(name, func, n, unwind, defs=(), **kw):
        return T(name, func, n, (n,), unwind=unwind, unwindset=["vf_realloc:26"], px=["WizardPathExtent=8"], defs=small + list(defs),
                 stubs="heap blocks of a constant 24 bytes (writes beyond the request but within 24 bytes are not seen)", **kw)
    for n in (1, 2, 3, 4):
        add("C16", A("argv-%d" % n, "h_argv", n, n + 3))
    add("C16", A("argv-5", "h_argv", 5, 8, tier="thorough", timeout=2000))
    for sl, rl, ns, tier in ((1, 2, (2, 3), "quick"), (2, 1, (2, 4), "quick"), (2, 2, (4,), "quick"), (2, 0, (4,), "quick"), (1, 0, (3,), "quick"), (2, 3, (3,), "quick"), (1, 2, (4,), "thorough"), (2, 3, (5,), "thorough"), (2, 1, (5,), "thorough")):
        for n in ns:
            add("C16", A("subst-%d-by-%d-%d" % (sl, rl, n), "h_subst", n, max(n * (rl if rl > sl else 1) + 3, n + 3), defs=["SL=%d" % sl, "RL=%d" % rl], tier=tier, timeout=150 if tier == "quick" else 2000))
    # ---- C17
    def C(name, func, n, src, unwind, lens=None, **kw):
        kw.setdefault("timeout", 200)
        return Q(name, "codec.c", func, src=src, defs=PX + ["N=%d" % n] + (["VF_LENS=%d" % lens] if lens is not None else []), unwind=unwind, bounds="every content of %d bytes" % (n if lens is None else lens), **kw)
    U = ["wizard/utility.c", "wizard/string.c"]
    for n in (1, 2, 3, 4, 5, 6, 7):
        add("C17", C("base64-%d" % n, "h_base64", 7, U, 66, n, tier="quick" if n < 6 else "thorough", timeout=900))
    for n in (0, 1, 2, 3, 4, 5, 6):
        add("C17", C("base64-any-%d" % n, "h_base64_any", 6, U, 66, n, unwindset=["h_base64_any:10", "Base64Decode:10", "strlen:10"]))
    for n in (0, 1, 2, 8):
        add("C17", C("hex-%d" % n, "h_hex", 8, S, 36, n))
    for n in (1, 2, 5, 8):
        add("C17", C("hex-any-%d" % n, "h_hex_any", 4, S, 36, n))
    add("C17",
        C("base64-any-long", "h_base64_any", 8, U, 66, 8, tier="thorough", timeout=3000),
        C("base64-long", "h_base64", 16, U, 66, 16, tier="thorough", timeout=3000),
        )
