"""Registry of the analyses that are not comparisons with reference functions."""
RULES = {}          # property -> [(name, function(P) -> Result)]

class Finding:
    """a construct that breaks a rule"""
    def __init__(self, file, line, where, rule, detail, key=None): self.file = file; self.line = line; self.where = where; self.rule = rule; self.detail = detail; self.key = key or "%s|%s|%s" % (rule, where, detail)
class Result:
    def __init__(self): self.checked = 0; self.undecided = []; self.findings = []; self.samples = []; self.functions = set(); self.note = ""
    def ok(self, sample=None):
        self.checked += 1
        if sample and len(self.samples) < 12: self.samples.append(sample)
    def bad(self, *a, **k): self.checked += 1; self.findings.append(Finding(*a, **k))
    def unk(self, s): self.undecided.append(s)

def rule(*props):
    def deco(fn):
        for p in props: RULES.setdefault(p, []).append((fn.__name__, fn))
        return fn
    return deco
