"""Reads an NJOY input deck the way NJOY does (list-directed reads card by card)
and reports each module call: tapes, material, temperatures, groups, weights."""
import re


class Garbled(Exception):
    pass


class Reader:
    """Fortran list-directed input: values are taken across lines until enough are
    read or a slash ends the record; the rest of the last line is skipped."""
    TOK = re.compile(r"\s*(?:'([^']*)'|(/)|([^\s/,']+)|,)")

    def __init__(self, text):
        self.lines = text.split('\n')
        self.i = 0

    def read(self, n):
        out = []
        while len(out) < n:
            if self.i >= len(self.lines):
                raise Garbled('the deck ends inside a card')
            line = self.lines[self.i]
            self.i += 1
            pos = 0
            while pos < len(line) and len(out) < n:
                m = self.TOK.match(line, pos)
                if not m:
                    break
                pos = m.end()
                if m.group(2):
                    return out
                if m.group(1) is not None:
                    out.append(m.group(1))
                elif m.group(3) is not None:
                    out.append(m.group(3))
        return out

    def nums(self, n, default=()):
        v = self.read(n)
        try:
            v = [float(x.replace('d', 'e').replace('D', 'e')) for x in v]
        except ValueError:
            raise Garbled('a word where a number is read: %s' % v)
        return v + list(default[len(v):]) if default else v

    def ints(self, n, default=()):
        v = self.nums(n, default)
        if any(x != int(x) for x in v):
            raise Garbled('a real where an integer is read: %s' % v)
        return [int(x) for x in v]

    def module(self):
        """the next module name; '--' comments and blank lines are skipped"""
        while self.i < len(self.lines):
            line = self.lines[self.i].strip()
            if line == '' or line.startswith('--'):
                self.i += 1
                continue
            return self.read(1)[0]
        return None


def need(v, n):
    if len(v) < n:
        raise Garbled('a card is too short')
    return v


def call(m, t, **kw):
    return dict(dict(m=m, t=[int(abs(x)) for x in t], mat=0, temps=[], temp=0, g=0, w=0, mf=0, kind='', mts=[], rx='', x=[]), **kw)


def K(t):
    """temperatures in thousandths of a kelvin"""
    return int(round(t * 1000))


def parse(text, groups=None, weights=None):
    """-> (module calls, ended with stop, what cannot be read)"""
    r, out = Reader(text), []
    groups = [float(g) for g in groups] if groups is not None else None
    weights = [float(w) for w in weights] if weights is not None else None

    def group_id(ign):
        if ign != 1:
            return 0
        n = need(r.ints(1), 1)[0]
        b = r.nums(n + 1)
        return 1 if groups is not None and n == len(groups) - 1 and b == groups else 2

    def weight_id(iwt):
        if iwt == 4:        # analytic flux parameters eb tb ec tc
            need(r.nums(4), 4)
        if iwt != 1:
            return 100 + iwt
        head = need(r.nums(8 + (len(weights) if weights else 0)), 8)
        np_ = int(head[5])
        ok = head[:4] == [0, 0, 0, 0] and int(head[4]) == 1 and int(head[6]) == np_ and int(head[7]) == 2 and len(head) == 8 + 2 * np_
        return 1 if ok and weights is not None and head[8:] == weights else 3

    try:
        while True:
            m = r.module()
            if m is None:
                return out, False, ''
            if m == 'stop':
                return out, True, ''
            if m == 'reconr':
                t = need(r.ints(2), 2)
                r.read(1)
                while True:
                    mat, ncards, _ = r.ints(3, (0, 0, 0))
                    if mat == 0:
                        break
                    err = need(r.nums(1), 1)[0]
                    for _ in range(ncards):
                        r.read(1)
                    out.append(call('reconr', t, mat=mat, x=[int(round(err * 1e7))]))
            elif m == 'broadr':
                t = need(r.ints(3), 3)
                mat, n, istart, istrap, t1 = r.nums(5, (0, 1, 0, 0, 0))
                err = need(r.nums(1), 1)[0]
                temps = [K(x) for x in need(r.nums(int(n)), int(n))]
                nxt = r.ints(1, (0,))[0]
                if nxt:
                    raise Garbled('broadr continues with another material')
                out.append(call('broadr', t, mat=int(mat), temps=temps, x=[int(round(err * 1e7))]))
            elif m == 'heatr':
                t = need(r.ints(4, (0, 0, 0, 0)), 3)[:3]
                mat, npk = r.ints(6, (0,) * 6)[:2]
                out.append(call('heatr', t, mat=mat, x=need(r.ints(npk), npk)))
            elif m == 'purr':
                t = need(r.ints(3), 3)
                mat, n, nsig, nbin, nlad = r.ints(7, (0, 1, 0, 0, 0, 1, 0))[:5]
                temps = [K(x) for x in need(r.nums(n), n)]
                need(r.nums(nsig), nsig)
                if r.ints(1, (0,))[0]:
                    raise Garbled('purr continues with another material')
                out.append(call('purr', t, mat=mat, temps=temps))
            elif m == 'thermr':
                t = need(r.ints(3), 3)
                matde, mat, nbin, n, iinc, icoh, iform, natom, mtref, ipr = need(r.ints(10), 10)
                temps = [K(x) for x in need(r.nums(n), n)]
                tol, emax = need(r.nums(2), 2)
                x = [iinc, icoh, natom, mtref, int(round(emax * 1000))]
                out.append(call('thermr', t, mat=mat, temps=temps, x=x if t[0] == 0 else [matde] + x))
            elif m == 'groupr':
                t = need(r.ints(4), 4)
                mat, ign, igg, iwt, lord, n, nsig, _ = r.ints(8, (0, 1, 0, 1, 0, 1, 1, 1))
                r.read(1)
                temps = [K(x) for x in need(r.nums(n), n)]
                need(r.nums(nsig), nsig)
                g = group_id(ign)
                w = weight_id(iwt)
                kinds = set()
                for _ in range(n):
                    got = []
                    while True:
                        c = r.read(3)
                        try:
                            mf = int(c[0]) if c else 0
                            mt = int(c[1]) if len(c) > 1 else -1000
                        except ValueError:
                            raise Garbled('a word where a reaction is read: %s' % c)
                        if mf == 0:
                            break
                        got.append((mf, mt))
                    kinds.add('all' if (3, -1000) in got else 'nuchi' if {(3, 452), (3, 18), (5, 18)} <= set(got) else 'some')
                if r.ints(1, (0,))[0]:
                    raise Garbled('groupr continues with another material')
                out.append(call('groupr', t, mat=mat, temps=temps, g=g, w=w, rx=kinds.pop() if len(kinds) == 1 else 'mixed'))
            elif m == 'errorr':
                t = need(r.ints(6, (0,) * 6), 4)[:4]
                mat, ign, iwt, _, _ = r.ints(5, (0, 1, 6, 1, 1))
                temp = 300.
                if t[2]:
                    _, temp = r.nums(2, (0, 300.))
                iread, mf = r.ints(7, (0, 33, 1, 1, -1, 0, 0))[:2]
                if iread:
                    raise Garbled('errorr asks for its own reaction list')
                out.append(call('errorr', t, mat=mat, temp=K(temp), mf=mf, g=group_id(ign), w=weight_id(iwt)))
            elif m == 'covr':
                t = need(r.ints(3, (0, 0, 0)), 3)
                if t[1] == 0:
                    r.ints(1)
                    r.nums(1)
                    _, ncase = r.ints(5, (1, 1, 0, 1, 1))[:2]
                    kind, mts = 'plot', []
                else:
                    matype, ncase = r.ints(2, (3, 1))
                    r.read(1)
                    r.read(1)
                    kind, mts = 'data' if matype == 3 else 'other', []
                mats = set()
                for _ in range(ncase):
                    c = r.ints(4, (0, 0, 0, 0))
                    if c[1] and (c[2], c[3]) not in ((c[0], c[1]), (0, 0)):
                        raise Garbled('covr plots a pair of reactions')
                    mats.add(c[0])
                    if c[1]:
                        mts.append(c[1])
                if len(mats) != 1:
                    raise Garbled('covr is given several materials')
                out.append(call('covr', t if kind == 'plot' else t[:2], mat=mats.pop(), kind=kind, mts=mts))
            elif m == 'viewr':
                out.append(call('viewr', need(r.ints(2), 2)))
            elif m == 'acer':
                t = need(r.ints(5), 5)
                c = need(r.read(5), 3)
                iopt, suff = int(c[0]), c[3] if len(c) > 3 else '.00'
                r.read(1)
                c = r.read(2 if iopt == 1 else 3)
                mat, temp = int(need(c, 2)[0]), float(c[1])
                if iopt == 1:
                    r.ints(2)
                    r.nums(3)
                    out.append(call('acer', t, mat=mat, temp=K(temp), kind=suff))
                elif iopt == 2:
                    za = r.ints(16)
                    d = need(r.nums(7), 6)
                    out.append(call('acer', t, mat=mat, temp=K(temp), kind=suff, rx=c[2] if len(c) > 2 else '',
                                    mts=za + [int(x) for x in d[:5]] + [int(round(d[5] * 1000))]))
                else:
                    raise Garbled('acer option %d' % iopt)
            else:
                raise Garbled('unknown module %s' % m)
    except Garbled as e:
        return out, False, str(e) or 'garbled'
    except (ValueError, OverflowError, IndexError) as e:
        return out, False, 'unreadable: %s' % e
