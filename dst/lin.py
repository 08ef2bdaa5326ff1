"""Linearizability of a PDP seen as a register holding a policy.

Events: dicts with inv, ret, kind ('set' installs value; 'get' observed one of
the values in 'may'; 'maybe' may or may not have installed value).  A get is
one atomic read of the register."""


def linearizable(events, initial):
    n = len(events)
    order = sorted(range(n), key=lambda i: events[i]['inv'])
    seen = set()
    full = (1 << n) - 1
    stack = [(0, initial)]
    while stack:
        done, val = stack.pop()
        if (done, val) in seen:
            continue
        seen.add((done, val))
        if done == full:
            return True
        # an event may be next if no pending event returned before it began
        horizon = min(events[i]['ret'] for i in order if not done >> i & 1)
        for i in order:
            if done >> i & 1:
                continue
            e = events[i]
            if e['inv'] > horizon:
                break
            if e['kind'] == 'get':
                if val in e['may']:
                    stack.append((done | 1 << i, val))
            else:
                stack.append((done | 1 << i, e['value']))
                if e['kind'] == 'maybe':
                    stack.append((done | 1 << i, val))
    return False
