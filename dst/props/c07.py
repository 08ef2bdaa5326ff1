from dst.props import evalbase as E

QUICK = 300
RULE = ('Seeded policies of up to 5 rules, requests and fault scripts; each '
        'run evaluates 3-6 requests.')
ORACLE = 'set-valued model of XACML 2.0 rule combining (dst/model.py)'


def gen(rng, tier):
    return E.gen_case(rng, tier, 'P')


def run(case, ctx):
    E.run_case(case, ctx)
