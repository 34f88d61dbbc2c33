from core import Query as Q

def register(add, assume):
    src = ["wizard/hashmap.c"]
    def L(name, func, ops, pre, timeout=150, defs=(), **kw):
        kw.setdefault("unwind", max(9, pre + ops + 4))
        return Q(name, "list.c", func, src=src, defs=["OPS=%d" % ops, "PRE=%d" % pre] + list(defs),
                 timeout=timeout, bounds="up to %d appended elements, then %d arbitrary operations, capacity arbitrary or unlimited, 8 distinct values, all positions 0..%d" % (pre, ops, pre + ops + 1), **kw)
    add("C13",
        L("one-op", "h_history", 1, 3),
        L("iterate", "h_iterate", 1, 3),
        L("sorted", "h_sorted", 3, 0))
    for op in range(7):
        add("C13", L("two-ops-%d" % op, "h_history", 2, 2, defs=["OP1=%d" % op]))
        add("C13", L("two-ops-deep-%d" % op, "h_history", 2, 3, timeout=1500, defs=["OP1=%d" % op], tier="thorough"))

    # ---- hash-map
    def M(name, cap, pre, ops, hashes=(5, 5, 5), defs=(), grow=False, timeout=150, **kw):
        n = 35 if grow else cap + 2
        us = ["observe:9", "h_history:9"] + ["%s:%d" % (f, n) for f in ("IncreaseHashmapCapacity", "DestroyHashmap.1", "GetNextKeyInHashmap", "GetNextValueInHashmap")]
        return Q(name, "hashmap.c", "h_history", src=src,
                 defs=["CAP=%d" % cap, "PRE=%d" % pre, "OPS=%d" % ops] + ["H%d=%d" % x for x in enumerate(hashes)] + list(defs),
                 unwind=pre + ops + 3, unwindset=us, timeout=timeout,
                 bounds="map of %d buckets, %d given insertions (key hashes %s%s), then %d operations (insert, lookup, remove, iterate) on arbitrary keys of 3 classes x 2 equal key objects" % (cap, pre, hashes, ", map grows" if grow else "", ops),
                 stubs="harness hash, comparison and release callbacks", **kw)
    add("C14",
        M("collide-2ops", 5, 1, 2, (5, 5, 5)),
        M("bucket-2ops", 5, 1, 2, (5, 10, 15)),
        M("mixed-2ops", 5, 1, 2, (5, 10, 6)),
        M("collide-full", 5, 3, 1, (5, 5, 5)),
        M("mixed-full", 5, 3, 1, (5, 10, 6)),
        M("replace", 5, 2, 1, (5, 10, 6), ["P1=1"]),
        M("grow", 3, 3, 0, (5, 8, 6), ["P0=0"], grow=True),
        M("grow-collide", 3, 3, 0, (5, 5, 5), grow=True),
        M("grow-put", 3, 2, 1, (5, 8, 39), ["OP1=0", "LOOKUP_ONLY"], grow=True),
        M("grow-remove", 3, 2, 1, (5, 8, 36), ["OP1=2", "LOOKUP_ONLY"], grow=True),
        M("grow-chain-put", 3, 2, 1, (5, 98, 8), ["OP1=0", "LOOKUP_ONLY"], grow=True),
        M("grow-chain-remove", 3, 2, 1, (5, 98, 8), ["OP1=2", "LOOKUP_ONLY"], grow=True),
        M("grow-same-remove", 3, 2, 1, (5, 5, 5), ["OP1=2", "LOOKUP_ONLY"], grow=True),
        M("grow-chain-iterate", 3, 2, 0, (5, 98, 8), grow=True),
        M("grow-fails", 3, 3, 0, (5, 5, 5), ["GROWFAIL"], grow=False),
        M("three-ops", 5, 0, 3, (5, 10, 6), timeout=1500, tier="thorough"),
        M("grow-op-iterate", 3, 2, 1, (5, 8, 39), timeout=1500, grow=True, tier="thorough"),
        )

    # ---- splay-tree (path-wise: all orders of the keys, all shapes they give)
    def S(name, func, pre, ops, defs=(), timeout=200, **kw):
        return Q(name, "splay.c", func, src=["wizard/splay-tree.c"], defs=["VF_PATHS", "PRE=%d" % pre, "OPS=%d" % ops] + list(defs),
                 unwind=pre + ops + 8, flags=["--paths", "lifo"], timeout=timeout,
                 bounds="%d insertions and %d operations (insert, lookup, delete, remove, delete/remove by value), one fresh key each, every total preorder of the keys" % (pre, ops),
                 stubs="harness comparison and release callbacks", **kw)
    for op in range(6):
        add("C15",
            S("history-%d" % op, "h_history", 3, 1, ["OP1=%d" % op]),
            S("iterate-%d" % op, "h_iterate", 3, 1, ["OP1=%d" % op]),
            S("two-ops-%d" % op, "h_history", 2, 2, ["OP1=%d" % op], tier="quick" if op in (0, 2, 3) else "thorough"),
            S("three-ops-%d" % op, "h_history", 1, 3, ["OP1=%d" % op], timeout=3000, tier="thorough"),
            S("deep-%d" % op, "h_history", 4, 1, ["OP1=%d" % op], timeout=3000, tier="thorough"))
    add("C15",
        S("reset", "h_history", 3, 0, ["RESET"]),
        S("clone", "h_clone", 3, 0),
        S("clone-after-op", "h_clone", 2, 1))
