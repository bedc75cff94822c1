class Report:
    """findings and counts of one analysis"""
    def __init__(self):
        self.viol = {}      # (property, kind, where) -> message
        self.count = {}
        self.unsup = []     # obligations left undecided

    def bad(self, prop, kind, where, msg):
        self.viol.setdefault((prop, kind, where), msg)

    def n(self, k, v=1): self.count[k] = self.count.get(k, 0) + v

    def merge(self, r):
        for k, v in r.viol.items(): self.viol.setdefault(k, v)
        for k, v in r.count.items(): self.n(k, v)
        self.unsup += r.unsup
