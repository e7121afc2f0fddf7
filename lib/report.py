"""Collects obligations, violations and evidence of one check."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.viol = []
        self.samples = []
        self.counts = {}
        self.rules = []
        self.assumptions = []
        self.functions = set()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fn(self, f):
        self.functions.add(f'{f.rel}:{f.l} {f.q}')

    def ok(self, what=None):
        self.obligations += 1
        self.discharged += 1
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def undecide(self, what):
        self.obligations += 1
        self.undecided.append(what)

    def violation(self, where, rule, msg, key=None):
        """where: 'file:line (function)'; key: line-independent identity."""
        self.obligations += 1
        key = key or f'{rule}|{where}'
        for v in self.viol:
            if v['key'] == key:
                return
        self.viol.append({'where': where, 'rule': rule, 'msg': msg, 'key': key})

    def need(self, cond, msg):
        if not cond:
            from prog import AnalysisError
            raise AnalysisError(msg)

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for k in json.load(open(kf))['findings']:
                if k['property'] == self.pid and k.get('status') == 'known':
                    known.append(k)
        new = []
        for v in self.viol:
            m = [k for k in known if k['key'] == v['key']]
            if m:
                print(f"KNOWN-FINDING: property={self.pid} {m[0]['what']} [{v['where']}]")
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {
            'property': self.pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the type-checked AST of /repo, extracted again on this run. '
                               'Rules: ' + ' || '.join(self.rules),
                'obligations': self.obligations,
                'discharged': self.discharged,
                'undecided': len(self.undecided),
                'undecided_list': self.undecided[:200],
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:200],
                'counts': self.counts,
                'samples': self.samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.replace(p + '.tmp', p)
        print(f'{self.pid} {self.title}: {self.obligations} obligations, {self.discharged} discharged, '
              f'{len(self.undecided)} undecided, {len(self.viol)} violated ({len(self.viol)-len(new)} known); '
              f'{len(self.functions)} functions; {self.counts}')
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for v in new:
                    f.write(f"{v['where']}: [{v['rule']}] {v['msg']}\n    key: {v['key']}\n")
            for v in new:
                print(f"{v['where']}: [{v['rule']}] {v['msg']}")
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        if self.obligations == 0:
            print(f'{self.pid}: nothing to check was found', file=sys.stderr)
            return 2
        return 0
