from dst.props import evalbase as E

QUICK = 450
RULE = ('Seeded policies, requests and attribute-source failures (16 kinds, '
        'per attribute or at the nth query) and one exception injected at a '
        'chosen point of an evaluation.')
ORACLE = ('set-valued model in which the failing expression, rule or policy '
          'is Indeterminate (dst/model.py)')


def gen(rng, tier):
    c = E.gen_case(rng, tier, 'any', faults=0.45, errors=True, refs=0.2)
    for q in c['requests']:
        p = q.get('pip')
        if p and rng.random() < 0.5:
            from dst import gen as G
            for a in p['table']:
                if rng.random() < 0.35:
                    p['faults'][a] = rng.choice(G.PIP_FAULTS)
    return c


def run(case, ctx):
    E.run_case(case, ctx)
