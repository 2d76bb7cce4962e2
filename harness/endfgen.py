"""Writes ENDF-6 tapes: numbers in the format's own styles, records, sections, materials."""


def num(x, style=0):
    """an 11 column ENDF real; the value must survive the style (few digits)"""
    if style == 1:          # with exponent letter
        s = '%.4E' % x
    elif style == 2:        # plain decimal
        s = repr(float(x)) if 1e-3 <= abs(x) < 1e6 or x == 0 else None
        if s is None or len(s) > 11:
            return num(x)
    elif style == 3:        # integer in a real field
        s = '%d' % x if x == int(x) and abs(x) < 1e9 else None
        if s is None:
            return num(x)
    elif style == 4:        # lower case letter
        s = '%.4e' % x
    elif style == 5 and 0 < abs(x) < 1:     # no digit before the point
        m, e = ('%.5e' % x).split('e')
        neg = m.startswith('-')
        d = m.replace('-', '').replace('.', '')
        s = ('-' if neg else '') + '.' + d + '%+d' % (int(e) + 1)
    elif style == 6:        # explicit plus sign, left adjusted
        return ('+' if x >= 0 else '') .__add__(num(x).strip()).ljust(11)[:11]
    else:
        m, e = ('%.6e' % x).split('e')
        s = '%s%+d' % (m, int(e))
        if len(s) > 11 - (x >= 0):
            m, e = ('%.5e' % x).split('e')
            s = '%s%+d' % (m, int(e))
        if len(s) > 11:
            m, e = ('%.4e' % x).split('e')
            s = '%s%+d' % (m, int(e))
    assert len(s) <= 11, s
    return s.rjust(11)


def field(v, style=0):
    if isinstance(v, str):
        return v[:11].ljust(11)
    if isinstance(v, bool):
        return '%11d' % v
    if isinstance(v, int):
        return '%11d' % v
    return num(v, style)


def line(vals, style=0):
    return ''.join(field(v, style) for v in vals).ljust(66)


def text(s):
    return s[:66].ljust(66)


def cont(c1, c2, l1, l2, n1, n2, style=0):
    return [line([float(c1), float(c2), int(l1), int(l2), int(n1), int(n2)], style)]


def lst(c1, c2, l1, l2, n2, vals, style=0):
    out = cont(c1, c2, l1, l2, len(vals), n2, style)
    for i in range(0, len(vals), 6):
        out.append(line([float(v) for v in vals[i:i + 6]], style))
    return out


def pairs(flat, style, isint):
    return [line([int(v) if isint else float(v) for v in flat[i:i + 6]], style) for i in range(0, len(flat), 6)]


def tab1(c1, c2, l1, l2, regions, xy, style=0):
    out = cont(c1, c2, l1, l2, len(regions), len(xy), style)
    out += pairs([v for r in regions for v in r], style, True)
    out += pairs([v for p in xy for v in p], style, False)
    return out


def tab2(c1, c2, l1, l2, nz, regions, style=0):
    return cont(c1, c2, l1, l2, len(regions), nz, style) + pairs([v for r in regions for v in r], style, True)


def material(mat, sections, number=True):
    """sections: list of (mf, mt, lines of 66 columns) in file order; the lines of a material on a tape"""
    out = []
    seq = 0
    last = None
    for mf, mt, ls in sections:
        if last is not None and mf != last:
            out.append('%-66s%4d%2d%3d%5d' % (line([0., 0., 0, 0, 0, 0]), mat, 0, 0, 0))
        last = mf
        for i, l in enumerate(ls):
            out.append('%-66s%4d%2d%3d%5d' % (l, mat, mf, mt, i + 1))
        out.append('%-66s%4d%2d%3d%5d' % (line([0., 0., 0, 0, 0, 0]), mat, mf, 0, 99999))
    out.append('%-66s%4d%2d%3d%5d' % (line([0., 0., 0, 0, 0, 0]), mat, 0, 0, 0))
    out.append('%-66s%4d%2d%3d%5d' % (line([0., 0., 0, 0, 0, 0]), 0, 0, 0, 0))
    return out


def tape(materials, title='tape'):
    out = ['%-66s%4d%2d%3d%5d' % (text(title), 1, 0, 0, 0)]
    for m in materials:
        out += m
    out.append('%-66s%4d%2d%3d%5d' % (line([0., 0., 0, 0, 0, 0]), -1, 0, 0, 0))
    return '\n'.join(out) + '\n'


def header(d, directory, style=0):
    """MF=1 MT=451; d: za awr lrp lfi nlib nmod elis sta lis liso nfor awi emax lrel nsub nver temp ldrv text"""
    t = d['text']
    out = [line([float(d['za']), float(d['awr']), d['lrp'], d['lfi'], d['nlib'], d['nmod']], style)]
    out += cont(d['elis'], d['sta'], d['lis'], d['liso'], 0, 6, style)
    out += cont(d['awi'], d['emax'], d['lrel'], 0, d['nsub'], d['nver'], style)
    out += cont(d['temp'], 0, d['ldrv'], 0, len(t), len(directory), style)
    out += [text(s) for s in t]
    for mf, mt, nc, mod in directory:
        out.append(' ' * 22 + '%11d%11d%11d' % (mf, mt, nc) + ('%11d' % mod if mod is not None else ' ' * 11))
    return out


BASE = dict(za=92235, awr=233.025, lrp=1, lfi=1, nlib=0, nmod=1, elis=0., sta=0., lis=0, liso=0, awi=1., emax=2e7, lrel=1, nsub=10, nver=8, temp=0., ldrv=0,
            text=[' 92-U -235 ORNL,LANL+ EVAL-SEP06 Young,Chadwick,Talou              '[:66], ' ref                  DIST-DEC11 REV1-JUN11           20111222   ', '----ENDF/B-VII.1', '-----INCIDENT NEUTRON', '------ENDF-6', 'more text'])


def simple(path, mat=9228, **kw):
    """a small evaluation NJOY runs are made for"""
    d = dict(BASE, **kw)
    secs = [(3, 1, cont(d['za'], d['awr'], 0, 0, 0, 0) + tab1(0, 0, 0, 0, [(2, 2)], [(1e-5, 1.), (2e7, 1.)])),
            (3, 102, cont(d['za'], d['awr'], 0, 0, 0, 0) + tab1(0, 0, 0, 0, [(2, 2)], [(1e-5, 1.), (2e7, 1.)]))]
    direc = [(1, 451, len(d['text']) + 4 + len(secs) + 1, 1)] + [(mf, mt, len(l), 1) for mf, mt, l in secs]
    with open(path, 'w') as f:
        f.write(tape([material(mat, [(1, 451, header(d, direc))] + secs)]))
