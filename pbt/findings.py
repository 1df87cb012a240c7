"""Known findings: committed list, never written at run time."""
import json
import os

from pbt import boot

PATH = os.path.join(boot.VERIF, "known_findings.jsonl")


def entries():
    if not os.path.exists(PATH):
        return []
    with open(PATH) as f:
        return [json.loads(l) for l in f if l.strip()]


def report(pid):
    """Print a line for each open (unrepaired) finding of this property that still fails."""
    for e in entries():
        if e.get("property") == pid and e.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
