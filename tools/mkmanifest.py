#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vf")
import checks
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
    'C08': "Not decided: a key's generation and authentication compose random stream, HMAC, AES-CTR and the keyring file; every part is decided on its own (C02, C03, C05, C07, C10), but the composition with a modelled keyring file was not built.",
    'C09': "Not decided: no harness was built for the keyring's record loop, which needs a modelled file with symbolic length fields; its integer and chunk I/O is decided under C10.",
    'C12': "Not decided: the compressors themselves (zlib, bzip2, lzma) are outside /repo and cannot be encoded; the wrappers' status handling could be decided over stand-ins for them, but no harness was built.",
    'C18': 'Not decided: no harness was built. The pattern matcher recurses and moves two symbolic positions, which needs a path-wise query and an independent matcher as oracle.',
    'C19': 'Not decided: the path functions work on 4096-byte buffers with strchr/strrchr-like scans from symbolic positions; no harness was built for them.',
    'C20': 'Not decided: the XML parser rewrites its input in place over heap buffers of symbolic length; no harness was built for it.',
    'C23': 'Not decided: no harness was built for the blob loops; the chunk loops of the same form are decided under C10.',
    'C24': "Not decided: the utilities' main loops compose cipher, HMAC, entropy coder, XML properties and files; the parts that can be encoded are decided under C01-C07 and C10.",
    'C25': "Not decided as a property of its own: the harnesses of C13-C15 count acquisitions and releases of the collection's lock, other modules are not covered.",
    'C26': 'Not decided: no harness was built for exception.c, which other harnesses replace by a recorder.',
    'C27': 'Not decided: a harness with stand-in cipher, generator and tree was written, but CBMC did not finish it within 100 s even for two fixed identifiers, so it is not claimed.',
}
SWEPT = ("C01", "C02", "C03", "C04", "C05")
def run(pid, tier):
    return "python3 /verif/vf/run.py %s --tier %s" % (pid, tier)
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout.split("\n")
m = dict(version=1,
    setup_cmd="python3 /verif/vf/setup.py",
    hooks=dict(guard="VF_NONE", enable="no hooks: the checks encode the unmodified sources", source_commits=[]),
    checks=[], not_applicable=[],
    notes="All checks encode /repo's current sources with goto-cc and decide them with CBMC; see DESIGN.md. KNOWN_FINDINGS lists recorded defects.")
for p in props:
    i = p["id"]
    if i in checks.REG:
        m["checks"].append(dict(property=i, quick_cmd=run(i, "quick"), thorough_cmd=run(i, "thorough"),
            evidence_file="/verif/evidence/%s.json" % i,
            technique="bounded symbolic model checking (CBMC over goto-cc encodings of the current sources, native replay of counterexamples)" +
                ("; equivalence queries in CBMC's SMT encoding are decided by sweeping (merging of subterms proved equal), CBMC's SAT solver otherwise" if i in SWEPT else ""),
            level="other",
            level_note=checks.NOTES.get(i, "Solver verdict over all values within the bounds listed per query in the evidence file; nothing is claimed outside them.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
