"""Result handling common to all checks."""
import json
import os
import signal
import sys
import time
import traceback

from .build import VERIF, AnalysisError, BuildError

KNOWN = os.path.join(VERIF, 'known_findings.json')


class Report:
    def __init__(self, prop, technique):
        self.prop = prop
        self.technique = technique
        self.t0 = time.time()
        self.violations = []   # (key, text)
        self.obligations = []  # (name, ok, detail)
        self.seen = set()
        self.cov = {}
        self.notes = []
        self.assumptions = []

    def ok(self, name, detail=''):
        self.add((name, True, detail))

    def add(self, o):
        # the same statement on another path of the same construct is counted once
        if (o[0], o[1]) not in self.seen:
            self.seen.add((o[0], o[1]))
            self.obligations.append(o)

    def bad(self, key, text):
        """key identifies the failing construct, text explains it."""
        self.add((key, False, text))
        if (key, text) not in self.violations:
            self.violations.append((key, text))

    def check(self, cond, name, text=''):
        if cond:
            self.ok(name)
        else:
            self.bad(name, text)
        return cond

    def undecided(self, name, text):
        t = 'undecided: %s: %s' % (name, text)
        if t not in self.notes:
            self.notes.append(t)

    def count(self, what, n):
        self.cov[what] = self.cov.get(what, 0) + n

    def require(self, cond, text):
        if not cond:
            raise AnalysisError(text)

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = json.load(f)
        new, listed = [], []
        for key, text in self.violations:
            k = [x for x in known if x.get('property') == self.prop and x.get('status') == 'known' and x.get('key') == key]
            (listed if k else new).append((key, text))
        ev_dir = os.path.join(VERIF, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join(ev_dir, '%s.violations.txt' % self.prop)
        n_ok = sum(1 for o in self.obligations if o[1])
        cov = {
            'explanation': self.technique,
            'obligations': len(self.obligations),
            'discharged': n_ok,
        }
        cov.update(self.cov)
        cov['samples'] = [{'obligation': o[0], 'holds': o[1], 'detail': o[2]} for o in self.obligations[:40]]
        if self.notes:
            cov['notes'] = self.notes[:40]
        ev = {
            'property': self.prop,
            'tier': os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        with open(os.path.join(ev_dir, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        print('%s: %d obligations, %d discharged, %s' % (
            self.prop, len(self.obligations), n_ok,
            ', '.join('%s=%s' % kv for kv in sorted(self.cov.items()) if not isinstance(kv[1], (list, dict)))))
        for n in self.notes:
            print('  note: ' + n)
        for key, text in listed:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if new:
            with open(replay, 'w') as f:
                for key, text in new:
                    f.write('%s\n    %s\n' % (key, text))
            for key, text in new[:12]:
                print('  %s: %s' % (key, text))
            if len(new) > 12:
                print('  ... and %d more' % (len(new) - 12))
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        if os.path.exists(replay):
            os.unlink(replay)
        return 0


def main(prop, technique, fn):
    r = Report(prop, technique)

    def late(*_):
        raise AnalysisError('the analysis takes too long')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    try:
        fn(r)
        signal.alarm(0)
        if not r.obligations:
            raise AnalysisError('no obligation was found: the rule matched nothing')
        sys.exit(r.finish())
    except BuildError as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (prop, e))
        sys.exit(3)
    except AnalysisError as e:
        # the code is not of a form the rules can interpret: nothing (more) was decided
        r.undecided('UNDECIDED property=%s' % prop, str(e))
        r.count('undecided', 1)
        sys.exit(r.finish())
    except SystemExit:
        raise
    except Exception as e:
        # a form of code that the analysis does not foresee; what was decided before stands
        traceback.print_exc()
        r.undecided('UNDECIDED property=%s' % prop, 'internal: %s: %s' % (type(e).__name__, e))
        r.count('undecided', 1)
        sys.exit(r.finish())
