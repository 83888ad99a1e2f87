"""Known findings: /verif/known_findings.txt, one per line.

  property=<id> harness=<name> [draw:<name>=<value> ...] -- <what fails>
  fixed: property=<id> <commit> <what failed>            (suppresses nothing)
"""
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Known:
    def __init__(self, entries):
        self.entries = entries

    def has(self, harness):
        return any(h == harness for h, _, _ in self.entries)

    def match(self, harness, draws):
        d = {n: v for n, _, v in draws}
        for h, conds, text in self.entries:
            if h == harness and all(str(d.get(k)) == v for k, v in conds):
                return text
        return None


def load_known(prop):
    entries = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("property="):
                continue
            head, _, text = line.partition(" -- ")
            toks = head.split()
            if toks[0] != f"property={prop}":
                continue
            harness = toks[1].split("=", 1)[1]
            conds = [tuple(t[5:].split("=", 1)) for t in toks[2:] if t.startswith("draw:")]
            entries.append((harness, conds, f"harness={harness} {text}"))
    return Known(entries)
