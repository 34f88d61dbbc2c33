from core import Query as Q

def register(add, assume):
    sysr = lambda *n: ["%s=vf_%s" % (x, x) for x in n]
    # ---- C21
    R = ["wizard/resource.c"]
    add("C21",
        Q("account-2", "resource.c", "h_account", src=R, defs=["OPS=2"], unwind=10, timeout=200, bounds="2 requests or releases of any 64-bit size under any limit", stubs="size formatting"),
        Q("area", "resource.c", "h_area", src=R, unwind=10, timeout=100, bounds="any 64-bit size and limit", stubs="size formatting"),
        Q("temporary", "resource.c", "h_temporary", src=R, defs=["TEMP", "WizardPathExtent=32", "TMP_MAX=1"] + sysr("mkstemp", "open", "close", "fchmod", "stat", "unlink", "getpid"), unwind=17, timeout=200, bounds="two temporary files, names equal up to case possible, any limit up to 3", stubs="file system, splay-tree (ordered map), random names"),
        )
    for i, t in enumerate(("memory", "map", "disk", "file")):
        add("C21", Q("account-3-" + t, "resource.c", "h_account", src=R, defs=["OPS=3", "TYPE=%d" % i], unwind=10, timeout=300, bounds="3 %s requests or releases of any 64-bit size under any limit" % t, stubs="size formatting"))
        add("C21", Q("account-5-" + t, "resource.c", "h_account", src=R, defs=["OPS=5", "TYPE=%d" % i], unwind=10, timeout=3000, tier="thorough", bounds="5 %s requests or releases of any 64-bit size under any limit" % t, stubs="size formatting"))
    # ---- C22
    M = ["wizard/memory.c"]
    def mq(name, f, defs, **kw):
        kw.setdefault("timeout", 200)
        return Q(name, "memory.c", f, src=M, defs=defs, unwind=26, **kw)
    AL = ["ALIGNED", "WizardPathExtent=16"] + sysr("posix_memalign", "lseek", "write", "close") + ["free=vf_free2", "__builtin_assume_aligned(p,a)=(p)"]
    for q in ("1", "3", "8", "24", "200", "0x8000000000000000", "0"):
        add("C22", mq("acquire-%s" % q, "h_acquire", ["QUANTUM=%s" % q] + ([] if q not in ("24", "200") else ["NOEXACT"]), bounds="every count, element size %s" % q))
        add("C22", mq("resize-%s" % q, "h_resize", ["QUANTUM=%s" % q], bounds="every count, element size %s" % q))
        add("C22", mq("aligned-%s" % q, "h_aligned", AL + ["QUANTUM=%s" % q], bounds="every count, element size %s" % q, stubs="posix_memalign"))
    for q in ("1", "3", "8", "200", "0x8000000000000001"):
        for f in ("acquire", "resize", "aligned"):
            add("C22", mq("%s-count-%s" % (f, q), "h_" + f, (AL if f == "aligned" else []) + ["COUNT=%s" % q] + (["NOEXACT"] if q == "200" else []), bounds="%s elements of every size" % q))
    for q in (1, 8, 24):
        add("C22", mq("virtual-%d" % q, "h_virtual", unwindset=["ResetWizardMemory:100"], defs=AL + ["QUANTUM=%d" % q], bounds="counts up to 255, element size %d, every combination of granted and refused resources, allocations, mappings and file operations" % q, stubs="allocator, resource accounts, mapping and files, all may fail"))
    for s in (0, 1, 3, 7, 8, 9, 11):
        add("C22", mq("copy-%d" % s, "h_copy", ["SIZE=%d" % s], bounds="blocks of %d bytes, every overlap" % s))
    # ---- C10
    F = ["wizard/file.c"]
    ch = ["CHUNK"] + sysr("read", "write")
    st = "read and write transfer any number of bytes, are interrupted up to twice, or fail"
    add("C10",
        Q("read", "fileio.c", "h_read", src=F, defs=ch + ["L=4"], unwind=9, timeout=200, bounds="chunks of up to 4 bytes, files of up to 4 bytes", stubs=st),
        Q("write", "fileio.c", "h_write", src=F, defs=ch + ["L=4"], unwind=9, timeout=200, bounds="chunks of up to 4 bytes", stubs=st),
        Q("byte", "fileio.c", "h_byte", src=F, defs=ch + ["L=2"], unwind=9, timeout=200, bounds="every byte", stubs=st),
        Q("read-long", "fileio.c", "h_read", src=F, defs=ch + ["L=8"], unwind=13, timeout=2000, tier="thorough", bounds="chunks of up to 8 bytes", stubs=st))
    for b in (16, 32, 64):
        add("C10", Q("integer-%d" % b, "fileio.c", "h_integer", src=F, defs=ch + ["BITS=%d" % b, "L=8", "WHOLE"], unwind=13, timeout=300, bounds="every %d bit value" % b, stubs=st))
    # ---- C11
    lk = ["LOCK"] + sysr("read", "write", "open", "close", "unlink", "kill", "getpid", "pthread_self", "fstat")
    ls = "simulated file system with one lock file and at most one other process, which acts only while this one waits"
    add("C11",
        Q("lock", "fileio.c", "h_lock", src=F, defs=lk, unwind=3, unwindset=["AcquireFileLock:14","AcquireString:8","CopyWizardString:8","vf_write:17","vf_read:17"], timeout=300, bounds="every starting state (free, live owner, dead owner, owner still writing, another thread of this process), 10 attempts", stubs=ls),
        Q("available", "fileio.c", "h_available", src=F, defs=lk, unwind=3, unwindset=["AcquireFileLock:14","AcquireString:8","CopyWizardString:8","vf_write:17","vf_read:17"], timeout=300, bounds="free lock or dead owner", stubs=ls))
