"""What a rule reports, and how a check turns it into an exit status, a replay file and an evidence file."""
import json, os, sys, time, traceback
from . import front

ROOT = os.path.normpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Finding:
    """One violated rule instance. key() names it without line numbers, so that edits elsewhere do not move it."""
    def __init__(self, prop, rule, fn, loc, subject, text):
        self.prop, self.rule, self.fn, self.loc, self.subject, self.text = prop, rule, fn, loc, subject, text

    def key(self):
        return "%s|%s|%s|%s" % (self.prop, self.rule, self.fn, self.subject)

    def __str__(self):
        return "%s: %s: %s [%s: %s]" % (self.loc, self.fn, self.text, self.rule, self.subject)


class Outcome:
    """explanation: rule applied; counts: what was analysed; samples: some of it written out"""
    def __init__(self, explanation, assumptions=()):
        self.findings, self.counts, self.samples, self.undecided = [], {}, [], {}
        self.explanation, self.assumptions = explanation, list(assumptions)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text, limit=12):
        if len(self.samples) < limit:
            self.samples.append(text)

    def add(self, *a):
        f = a[0] if len(a) == 1 else Finding(*a)
        if f.key() not in {x.key() for x in self.findings}:
            self.findings.append(f)

    def take(self, o):
        """what another analysis found, counted here"""
        for f in o.findings:
            self.add(f)
        for k, v in o.counts.items():
            self.count(k, v)
        for t in o.samples:
            self.sample(t)
        self.undecided.update(o.undecided)

    def need(self, name, least=1):
        """an analysis that looked at nothing has decided nothing"""
        if self.counts.get(name, 0) < least:
            raise front.Broken("nothing to analyse: %s = %d, expected at least %d" % (name, self.counts.get(name, 0), least))


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % prop):
                rest = l[len("known: property=%s " % prop):].strip()
                k, _, what = rest.partition(" :: ")
                out[k.strip()] = what.strip()
    return out


def main(prop, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        out = fn(tier)
    except front.Broken as e:
        print("ERROR property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s: internal error" % prop)
        return 2
    kn = known(prop)
    new = [f for f in out.findings if f.key() not in kn]
    old = [f for f in out.findings if f.key() in kn]
    for f in old:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[f.key()] or f.text, f.loc))
    cov = dict(out.counts)
    cov["explanation"] = out.explanation
    cov["samples"] = out.samples
    cov["known_findings"] = len(old)
    if out.undecided:
        cov["undecided"] = out.undecided
        for k, v in sorted(out.undecided.items()):
            print("UNDECIDED: %s: %s" % (k, v))
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": out.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    rep = os.path.join(ev, prop + ".violations.txt")
    if os.path.exists(rep):
        os.remove(rep)
    print("%s: %s; %d violation(s), %.1fs" % (prop, ", ".join("%s %s" % (v, k) for k, v in out.counts.items()), len(new), time.time() - t0))
    if new:
        with open(rep, "w") as f:
            for x in new:
                f.write("%s\n  key: %s\n" % (x, x.key()))
                print("  " + str(x))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0
