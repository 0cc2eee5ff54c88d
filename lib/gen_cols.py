"""Programs that read columns of data."""
WS = [' ', '  ', '\t', ' \t ', '        ']


def word(rng, kinds='iiiffs'):
    k = rng.choice(kinds)
    if k == 'i':
        v = rng.choice([0, 1, -1, 7, 12, -340, 99999, rng.randrange(-10 ** 5, 10 ** 5)])
        return dict(k='i', v=v, s=rng.choice(['%d', '%d', '%+d', '%06d']) % v)
    if k == 'f':
        v = rng.choice([500, -2500, 125, rng.randrange(-10 ** 6, 10 ** 6)])
        return dict(k='f', v=v, s=rng.choice(['%.3f', '%.5f', '%.6e']) % (v / 1000.))
    return dict(k='s', v=0, s=rng.choice(['x', 'abc', '1x', '#', 'a,b', 'e', '-', 'Zz', '0x1f', '1-2']))


def dress(rng, lines, ops):
    return dict(lines=lines, ops=ops, ws=[[rng.choice(['', '', ' ', '\t']), [rng.choice(WS) for _ in range(3)], rng.choice(['', '', ' ', '\t'])] for _ in lines],
                nl=rng.choice(['\n', '\n', '\n', '\r\n']), last=rng.random() < .7 or (bool(lines) and not lines[-1]), file=rng.choice(['disk', 'string', 'bytes']))


def read(rng, ts):
    return dict(op='read', ts=ts, tup=rng.random() < .3, arr=rng.choice([None, None, True, False]))


def from_behaviour(rng, b):
    ops = [dict(op='skip')] * b['skip'] + [read(rng, b['ts'])]
    if rng.random() < .3:
        ops.append(read(rng, b['ts']))
    p = dress(rng, b['lines'], ops)
    if any(not l for l in b['lines']):       # empty lines have to be there
        p['last'] = True
        p['ws'] = [w if l else ['', w[1], ''] for w, l in zip(p['ws'], b['lines'])]
    return p


def program(rng):
    n = rng.choice([0, 1, 2, 3, 5, 12, 40])
    nc = rng.choice([1, 1, 2, 3, 5, 8])
    ts = [rng.choice(['int', 'float', 'str', 'neg', 'float']) for _ in range(nc)]
    kinds = {'int': 'i', 'neg': 'i', 'float': 'iff', 'str': 'ifs'}
    lines = []
    for _ in range(n):
        l = [word(rng, kinds[t]) for t in ts]
        l += [word(rng) for _ in range(rng.choice([0, 0, 0, 1, 3]))]
        lines.append(l)
    if lines and rng.random() < .2:          # one malformed line
        k = rng.randrange(n)
        if rng.random() < .5:
            lines[k] = lines[k][:rng.randrange(nc)]
        else:
            lines[k][rng.randrange(nc)] = word(rng, 's')
    h = rng.choice([0, 0, 1, 2])
    lines = [[word(rng) for _ in range(rng.randrange(1, 4))] for _ in range(h)] + lines
    ops = [dict(op='skip')] * h + [read(rng, ts)]
    if rng.random() < .3:
        ops.append(read(rng, [rng.choice(['int', 'float', 'str']) for _ in range(rng.randrange(1, 4))]))
    p = dress(rng, lines, ops)
    p['last'] = p['last'] or any(not l for l in lines)
    if n >= 12 and rng.random() < .3:        # a file of many kilobytes
        for w in p['ws']:
            w[0] = ' ' * rng.choice([2000, 9000])
    return p


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] == 'read' and e['r'] == 'ok' and any(e['cols'])]
    if not c:
        return None
    col = rng.choice([x for x in rng.choice(c)['cols'] if x])
    if rng.random() < .5:
        col.pop()
    else:
        z = rng.choice(col)
        z['v'] += 1
        z['s'] += '?'
    return tr
