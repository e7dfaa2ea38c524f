"""Property registry."""

PROPS = {}

REAL_PARTS = [
    'fides.minimize',
    'fides.trust_region',
    'fides.steps',
    'fides.stepback',
    'fides.subproblem',
    'fides.hessian_approximation',
    'fides.logging (and the logging package)',
    'fides.constants',
    'numpy / scipy numerics',
]
STUB_PARTS = [
    'objective service (simulated, with reply faults)',
    'clock (time.*)',
    'identifier source (uuid.*)',
    'log stream (sys.stderr)',
]


class Prop:
    id = None
    quick = 2000
    thorough = 60000
    needs_tmp = False
    chunk = 20
    wall_hang = False  # never coming back is a violation of this one
    rule = ''
    technique = 'deterministic simulation with fault injection, seeded search'
    note = ''
    real = REAL_PARTS
    stub = STUB_PARTS
    level = 'exploration'
    nt_rule = 'at least one injected fault fired and two evaluations happened'

    def gen(self, r, index):
        raise NotImplementedError

    def run(self, sc, tmp):
        raise NotImplementedError

    def valid(self, sc):
        """may the shrinker use this scenario?"""
        if not sc.get('clients'):
            return False
        for c in sc['clients']:
            if not c.get('runs'):
                return False
            lb, ub = c['lb'], c['ub']
            for a, b in zip(lb, ub):
                if not a < b:
                    return False
            for rs in c['runs']:
                for a, x, b in zip(lb, rs['x0'], ub):
                    if not a <= x <= b:
                        return bool(rs.get('infeasible'))
        return True

    def known_probe(self, tmp):
        """[(text of the known finding, still there?)]"""
        return []


def register(cls):
    PROPS[cls.id] = cls()
    return cls
