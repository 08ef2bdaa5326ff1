from dst.props import evalbase as E

QUICK = 250
RULE = ('Seeded policy-set trees (depth to 3, up to 4 children per set, local '
        'references), requests and fault scripts; each run evaluates 3-6 '
        'requests.')
ORACLE = 'set-valued model of XACML 2.0 policy combining (dst/model.py)'


def gen(rng, tier):
    return E.gen_case(rng, tier, 'S', refs=0.4)


def run(case, ctx):
    E.run_case(case, ctx)
