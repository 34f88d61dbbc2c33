"""Registry: property -> solver queries."""
import glob, importlib, os, re, sys
from core import Query as Q, VERIF
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REG = {}
ASSUME = {}
NOTES = {}

def add(pid, *qs):
    REG.setdefault(pid, []).extend(qs)

def assume(pid, *txt):
    ASSUME.setdefault(pid, []).extend(txt)

def queries(pid):
    return REG[pid]

def assumptions(pid):
    return ["allocation succeeds unless the query's stubs say otherwise",
            "logging, locale formatting and fatal exits are stand-ins (harness/stub_base.h)"] + ASSUME.get(pid, [])

def known(pid):
    """(query, description) pairs of the known findings of a property."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) query=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "reg_*.py"))):
    importlib.import_module(os.path.basename(f)[:-3]).register(add, assume)
