"""Damages of policy documents and of their delivery."""
import io
import os
import re
import shutil
import tempfile
import xml.parsers.expat as expat

from . import gen
from . import world as W

DECL = b'<?xml version="1.0" encoding="UTF-8"?>\n'
READ_EXC = ('OSError', 'TimeoutError', 'ValueError', 'MemoryError',
            'SourceDown', 'RuntimeError', 'KeyError', 'Exception')


def spans(data):
    """(tag, start, end) byte spans of the elements, in document order."""
    p = expat.ParserCreate()
    stack, out = [], []

    def start(tag, attrs):
        stack.append((tag, p.CurrentByteIndex))

    def end(tag):
        t, s = stack.pop()
        i = p.CurrentByteIndex
        e = data.index(b'>', i) + 1
        out.append((t, s, e))
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.Parse(data, True)
    return sorted(out, key=lambda x: x[1])


BYTE_KINDS = ('trunc', 'trunc', 'zero', 'flip', 'lost', 'repeat', 'lostel',
              'repeatel', 'moveel', 'torn', 'torn')
EDIT_KINDS = ('attr', 'attr', 'rename', 'rename', 'renameattr', 'alien',
              'emptyval', 'token', 'char')
TOKENS = (
    ('Effect', ('permit', 'PERMIT', '', 'Perm', 'DenyPermit', ' Permit')),
    ('RuleCombiningAlgId', ('urn:none', '', gen.PALG['deny'],
                            gen.RALG['deny'] + 'x')),
    ('PolicyCombiningAlgId', ('urn:none', '', gen.RALG['deny'],
                              gen.PALG['first'][:-1])),
    ('FunctionId', ('urn:none', '', gen.F1 + 'string-equa',
                    gen.F1 + 'strings-equal')),
    ('MatchId', ('urn:none', '', gen.F1 + 'string-equa',
                 gen.F2 + 'anyURI-regexp-mat')),
    ('DataType', ('urn:none', '',
                  'http://www.w3.org/2001/XMLSchema#strin')),
    ('MustBePresent', ('true', 'false', '1', '0', 'yes', 'TRUE', 'x', '',
                       ' true ', 'tru', 'flase', 'n', '2', 'true.')),
)


def damage(rng, data, other=None):
    """A damage description for the document bytes data."""
    if rng.random() < 0.55:
        k = rng.choice(BYTE_KINDS)
    else:
        k = rng.choice(EDIT_KINDS)
    n = len(data)
    d = {'kind': k}
    if k == 'trunc':
        d['off'] = rng.randrange(n)
        if rng.random() < 0.3:
            # at the end of an element
            d['off'] = rng.choice(spans(data))[2]
    elif k == 'flip':
        d['off'] = rng.randrange(len(DECL), n)
        d['bit'] = rng.randrange(8)
    elif k in ('zero', 'lost', 'repeat'):
        d['n'] = rng.choice((1, 4, 16, 64, 512))
        d['off'] = rng.randrange(len(DECL), n)
        if rng.random() < 0.4:
            d['off'] -= d['off'] % d['n']
    elif k in ('lostel', 'repeatel'):
        sp = spans(data)
        t, a, b = rng.choice(sp[1:] or sp)
        d = {'kind': k[:-2], 'off': a, 'n': b - a, 'tag': t}
    elif k == 'moveel':
        sp = spans(data)
        t, a, b = rng.choice(sp[1:] or sp)
        c = rng.choice(sp)[rng.choice((1, 2))]
        d.update(a=a, b=b, to=c, tag=t)
    elif k == 'torn':
        blk = rng.choice((1, 16, 64, 512))
        d['off'] = rng.randrange(n) // blk * blk
    elif k == 'attr':
        m = rng.choice(list(re.finditer(rb' [A-Za-z]+="[^"]*"',
                                        data[len(DECL):])))
        d.update(off=m.start() + len(DECL), n=m.end() - m.start(),
                 what=m.group().decode())
    elif k == 'renameattr':
        m = rng.choice(list(re.finditer(rb' ([A-Za-z]+)="',
                                        data[len(DECL):])))
        d.update(off=m.start(1) + len(DECL), n=m.end(1) - m.start(1),
                 to=rng.choice(('Foo', m.group(1).decode().lower(),
                                m.group(1).decode() + 's')))
    elif k == 'rename':
        t, a, b = rng.choice(spans(data))
        d.update(a=a, b=b, tag=t, to=rng.choice(
            ('Foo', t.lower() if t.lower() != t else 'foo', t + 's',
             t[:-1] or 'X', 'Obligations', 'Description', 'Policy',
             'Target')))
    elif k == 'alien':
        sp = spans(data)
        t, a, b = rng.choice(sp)
        d.update(at=data.index(b'>', a) + 1 if data[data.index(b'>', a) - 1]
                 != 47 else b, tag=t,
                 text=rng.choice(('<Foo/>', '<Foo>x</Foo>',
                                  '<x:Foo xmlns:x="urn:x"/>',
                                  '<Obligations/>', '<Subject/>',
                                  '<Rule RuleId="zz" Effect="Deny"/>',
                                  '<AttributeValue DataType="%s">a'
                                  '</AttributeValue>' % gen.STR)))
        end = data.find(b'<', d['at'])
        if data[d['at']:end].strip() and rng.random() < 0.5:
            d['at'] += rng.randrange(1, end - d['at'] + 1)
            while data[d['at']] & 0xc0 == 0x80:
                d['at'] += 1
    elif k == 'emptyval':
        ms = list(re.finditer(rb'>([^<>]+)<', data[len(DECL):]))
        if not ms:
            return damage(rng, data, other)
        m = rng.choice(ms)
        d.update(off=m.start(1) + len(DECL), n=m.end(1) - m.start(1),
                 to=rng.choice(('', ' ', 'zz')))
    elif k == 'token':
        name, vals = rng.choice(TOKENS)
        ms = list(re.finditer((' %s="([^"]*)"' % name).encode(), data))
        if not ms:
            return damage(rng, data, other)
        m = rng.choice(ms)
        d.update(off=m.start(1), n=m.end(1) - m.start(1),
                 to=rng.choice(vals))
    elif k == 'char':
        # one character inside an attribute's value
        ms = [m for m in re.finditer(rb' ([A-Za-z]+)="([^"&]+)"', data)
              if m.group(1) not in (b'xmlns', b'version', b'encoding')]
        if not ms:
            return damage(rng, data, other)
        name = rng.choice(sorted(set(m.group(1) for m in ms)))
        m = rng.choice([m for m in ms if m.group(1) == name])
        v = m.group(2).decode()
        i = rng.randrange(len(v))
        c = rng.choice((v[i] * 2, '', v[i].swapcase(), ' ', chr(
            ord(v[i]) ^ 1 << rng.randrange(5)) if v[i].isalnum() else '-'))
        if re.search('[<>&"\x00-\x1f]', c):
            c = ''
        d = {'kind': 'token', 'off': m.start(2), 'n': m.end(2) - m.start(2),
             'to': v[:i] + c + v[i + 1:]}
    return d


def apply(d, data, other=None):
    """The delivered bytes."""
    if not d:
        return data
    k = d['kind']
    if k == 'trunc':
        return data[:d['off']]
    if k == 'flip':
        b = bytearray(data)
        b[d['off'] % len(b)] ^= 1 << d['bit']
        return bytes(b)
    if k == 'zero':
        n = min(d['n'], max(0, len(data) - d['off']))
        return data[:d['off']] + b'\0' * n + data[d['off'] + n:]
    if k == 'lost':
        return data[:d['off']] + data[d['off'] + d['n']:]
    if k == 'repeat':
        return data[:d['off'] + d['n']] + data[d['off']:]
    if k == 'moveel':
        el = data[d['a']:d['b']]
        if d['a'] <= d['to'] <= d['b']:
            return data
        if d['to'] < d['a']:
            return data[:d['to']] + el + data[d['to']:d['a']] + data[d['b']:]
        return data[:d['a']] + data[d['b']:d['to']] + el + data[d['to']:]
    if k == 'torn':
        o = other or b''
        return data[:d['off']] + o[d['off']:]
    if k == 'attr':
        return data[:d['off']] + data[d['off'] + d['n']:]
    if k in ('renameattr', 'emptyval', 'token'):
        return data[:d['off']] + d['to'].encode() + data[d['off'] + d['n']:]
    if k == 'rename':
        el = data[d['a']:d['b']]
        t = d['tag'].encode()
        el = b'<' + d['to'].encode() + el[1 + len(t):]
        if el.endswith(b'</' + t + b'>'):
            el = el[:-len(t) - 1] + d['to'].encode() + b'>'
        return data[:d['a']] + el + data[d['b']:]
    if k == 'alien':
        return data[:d['at']] + d['text'].encode() + data[d['at']:]
    raise RuntimeError(k)


def delivery(rng, fault=True, n=1000):
    """How a stream hands out its bytes."""
    d = {'chunk': rng.choice(('all', 'all', 'rand', 'rand', 1, 7, 64, 1000)),
         'seed': rng.getrandbits(31)}
    if rng.random() < 0.2:
        d['stall'] = rng.choice((0.001, 1.0))
    if fault:
        d['fault'] = ['error', rng.choice((0, 1, rng.randrange(n),
                                           rng.randrange(n), n)),
                      rng.choice(READ_EXC)]
    return d


def raw_ok(data):
    """Whether the XML library itself takes the bytes for a document."""
    m = W.mods()
    try:
        m.ET.parse(io.BytesIO(data))
        return True
    except Exception:
        return False


class Files(object):
    """A scratch directory of document files."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='dstf-', dir=os.environ.get('DST_TMP') or None)
        self.n = 0

    def write(self, data, name=None):
        self.n += 1
        p = os.path.join(self.dir, name or 'd%d.xml' % self.n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(data)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
