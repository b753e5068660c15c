"""Obligation accounting per property, evidence and verdicts."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop, tier, seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.instances = []        # dicts: function, contract, status, obligations, detail
        self.viol = []
        self.known = []
        self.assumptions = []
        self.trusted = []
        self.notes = []
        self.bounded = []
        self.kinds = {}
        self.solver = {}

    # -------------------------------------------------------- results
    def proved(self, func, contract, obligations=1, backend='term engine', **kw):
        self.instances.append(dict(function=func, contract=contract, status='proved', obligations=obligations, backend=backend, **kw))

    def bounded_ok(self, func, contract, bound, why, runs=0):
        self.instances.append(dict(function=func, contract=contract, status='bounded', obligations=0, bound=bound, why=why, runs=runs))

    def kind(self, counts):
        for k, v in counts.items():
            self.kinds[k] = self.kinds.get(k, 0) + v

    def violation(self, func, contract, obligation, replay=None, output=None):
        """replay: a dict describing a failing input run on the real code, or None."""
        known = load_known()
        for e in known:
            if e.get('property') == self.prop and e.get('status') == 'known' and e.get('function') == func \
                    and e.get('contract') == contract and match_known(e, replay, obligation):
                line = 'KNOWN-FINDING: property=%s %s' % (self.prop, e['what'])
                if line not in self.known:
                    self.known.append(line)
                self.instances.append(dict(function=func, contract=contract, status='known-finding', obligations=1))
                return
        self.viol.append(dict(function=func, contract=contract, obligation=obligation, input=replay, verifier_output=output))
        self.instances.append(dict(function=func, contract=contract, status='violated', obligations=1, obligation=obligation))

    # -------------------------------------------------------- output
    def finish(self, level='proof', checker_cmd='python3-vt /verif/check.py', vacuity=1):
        n_ob = sum(i['obligations'] for i in self.instances)
        n_ok = sum(i['obligations'] for i in self.instances if i['status'] == 'proved')
        nb = [i for i in self.instances if i['status'] == 'bounded']
        by = {}
        for i in self.instances:
            if i['status'] == 'proved':
                by[i['backend']] = by.get(i['backend'], 0) + i['obligations']
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        lines = []
        for k, v in enumerate(self.viol):
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.prop, k))
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, **v), f, indent=1, default=str)
            if v['input'] is None and any(x['input'] is not None for x in self.viol):
                continue
            lines.append('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if v['input'] is not None else ' no-failing-input-found'))
        try:
            from . import logic
            solver = dict(logic.STATS)
        except Exception:
            solver = {}
        for k, v in self.solver.items():
            solver[k] = solver.get(k, 0) + v
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(obligations=n_ob, discharged=n_ok,
                                checker_cmd='%s %s --tier %s' % (checker_cmd, self.prop, self.tier),
                                trusted_base=self.trusted,
                                functions_under_contract=sorted({i['function'] for i in self.instances if i['status'] == 'proved'}),
                                contract_instances=len(self.instances),
                                obligations_by_backend=by,
                                generated_conditions_by_kind=self.kinds,
                                solver=solver,
                                bounded=[dict(function=i['function'], contract=i['contract'], bound=i['bound'], why=i['why'], runs=i['runs']) for i in nb],
                                notes=self.notes),
                  assumptions=self.assumptions,
                  violations=len(self.viol),
                  wall_s=round(time.time() - self.t0, 2))
        if self.known:
            ev['coverage']['known_findings'] = self.known
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for l in self.known:
            print(l)
        for v in self.viol[:20]:
            print('%s: %s [%s]: %s' % (self.prop, v['function'], v['contract'], v['obligation']))
        for l in lines:
            print(l)
        print('%s %s: %d obligations, %d discharged, %d contract instances (%d bounded), %d violations, %.1f s' %
              (self.prop, self.tier, n_ob, n_ok, len(self.instances), len(nb), len(self.viol), time.time() - self.t0))
        if len(self.instances) < vacuity and not self.viol:
            print('vacuous run: only %d contract instances' % len(self.instances))
            return 2
        return 1 if self.viol else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return json.load(open(p))['findings']
    except (OSError, ValueError, KeyError):
        return []


def match_known(e, replay, obligation):
    want = e.get('match', {})
    src = dict(replay or {})
    src['obligation'] = obligation
    return all(src.get(k) == v for k, v in want.items())
