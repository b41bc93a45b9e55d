"""Findings, known findings, coverage counters."""
import os
from .model import AnalysisError


class Finding:
    def __init__(self, rule, construct, message, loc, trace=()):
        self.rule, self.construct, self.message = rule, construct, message
        self.loc, self.trace = loc, list(trace)

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def text(self, known=None):
        out = ['%s%s: [%s] %s' % ('(known) ' if known else '', self.loc,
                                  self.rule, self.message),
               '   key: %s' % self.key]
        for t in self.trace:
            out.append('     via %s' % t)
        return '\n'.join(out)


class Report:
    def __init__(self, pid, tier, prog, nim):
        self.pid, self.tier, self.prog, self.nim = pid, tier, prog, nim
        self.findings = []
        self._keys = {}
        self.coverage = {'modules': len(prog.modules),
                         'functions_parsed': len(prog.funcs)}
        self.floors = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def add(self, rule, construct, message, loc, trace=()):
        f = Finding(rule, construct, message, loc, trace)
        if f.key in self._keys:
            return
        self._keys[f.key] = f
        self.findings.append(f)

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def sample(self, name, text, limit=8):
        lst = self.coverage.setdefault(name, [])
        if len(lst) < limit and text not in lst:
            lst.append(text)

    def floor(self, name, minimum):
        """the rule must have had at least this many instances"""
        self.floors.append((name, minimum))

    def verify_floors(self):
        for name, m in self.floors:
            got = self.coverage.get(name, 0)
            if got < m:
                raise AnalysisError(
                    'only %s %s found, at least %s expected: the rule no '
                    'longer sees the code it is about' % (got, name, m))


def known_findings(here, pid):
    out = {}
    p = os.path.join(here, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith('known:'):
            continue
        body = line[len('known:'):].strip()
        head, _, rest = body.partition(' ')
        if head != 'property=' + pid:
            continue
        key, _, what = rest.partition(' :: ')
        out[key.strip()[len('key='):]] = what.strip()
    return out
