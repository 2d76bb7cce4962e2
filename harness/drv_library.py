"""C27: histories of a data library in a scratch tree"""
import os, shutil
import xml.etree.ElementTree as ET
import numpy as np
import h5py
from common import *
from side import parallel
with quiet():
    from ASAPy.data.library import DataLibrary

FILES = [((), 'n0', 'neutron', ['U235']), (('a',), 'n1', 'neutron', ['Pu239', 'U235', 'U238']), (('a', 'b'), 't1', 'thermal', ['c_H_in_H2O']),
         (('a', 'b'), 'n1', 'photon', ['Pu', 'U']), (('ab',), 'w1', 'wmp', ['U238']), (('ab',), 'bad', '', [])]
NAMES = [{}, {'b': 'b & c'}, {'a': 'x<1>', 'ab': 'x<1>2', 'n1': 'n1.h5', 'w1': "w'\"1.h5"}, {'b': 'é b', 't1': 't 1.h5', 'n0': 'n0.hdf5'}]


def history(c, d, number):
    ren = NAMES[c['names']]
    back = {v: k for k, v in ren.items()}
    real = lambda cs: [ren.get(x, x) for x in cs]
    d = os.path.realpath(d)
    root = lambda b: os.path.join(d, b)
    for dirs in ([], ['a'], ['a', 'b'], ['ab']):
        os.makedirs(os.path.join(root('r'), *real(dirs)))
    for dirs, n, t, mats in FILES:
        with h5py.File(os.path.join(root('r'), *real(dirs), *real([n])), 'w') as f:
            if t:
                f.attrs['filetype'] = np.bytes_('data_' + t)
            f.attrs['version'] = np.array([1, 0])
            for m in mats:
                f.create_group(m).create_dataset('x', data=[1.])
    b, cwd = 'r', ['r']
    os.chdir(root('r'))
    lib = DataLibrary()

    def comps(p):
        p = os.path.abspath(p)
        rel = os.path.relpath(p, d)
        return [back.get(x, x) for x in rel.split(os.sep)] if not rel.startswith('..') else ['outside', p]

    def spell(cs, how):
        cs = real(cs)
        p = os.path.join(d, *cs)
        if how == 'abs' or how == 'env':
            return p
        if how == 'up':
            return os.path.join(d, *cs[:-1], '..', *cs[-2:])
        r = os.path.relpath(p)
        return r if how == 'rel' else './' + r

    def entry(x):
        return dict(p=comps(x['path']), type=x['type'], mats=list(x['materials']))
    out = []
    for op in c['ops']:
        k, exc, found, xml = op['k'], '', [], []
        if k == 'new':
            lib = DataLibrary()
        elif k == 'chdir':
            cwd = [b] + op['d']
            os.chdir(os.path.join(d, *real(cwd)))
        elif k == 'move':
            n = 's' if b == 'r' else 'r'
            os.chdir(d)
            os.rename(root(b), root(n))
            b, cwd = n, [n] + cwd[1:]
            os.chdir(os.path.join(d, *real(cwd)))
        elif k == 'reg':
            dirs, n = (FILES[op['f'] - 1][:2]) if op['f'] <= len(FILES) else ((), 'nowhere')
            p = spell([b, *dirs, n], op['how'])
            if c['path'] and op['how'] == 'abs':
                import pathlib
                p = pathlib.Path(p)
            _, exc = attempt(lib.register_file, p)
        elif k == 'export':
            p = spell([b, *op['d'], 'cross_sections.xml'], op['how'])
            _, exc = attempt(lib.export_to_xml) if p == 'cross_sections.xml' else attempt(lib.export_to_xml, p)
            if not exc:
                at = os.path.join(d, *real([b, *op['d']]))
                r = ET.parse(os.path.join(at, 'cross_sections.xml')).getroot()
                base = r.find('directory').text if r.find('directory') is not None else at
                xml = [dict(p=comps(os.path.join(base, e.get('path'))), type=e.get('type'), mats=e.get('materials').split()) for e in r.findall('library')]
        elif k == 'import':
            os.environ.pop('OPENMC_CROSS_SECTIONS', None)
            p = None if op['how'] == 'none' else spell([b, *op['d'], 'cross_sections.xml'], op['how'])
            if p:
                os.environ['OPENMC_CROSS_SECTIONS'] = os.path.join(d, 'not there.xml')
            if op['how'] == 'env':
                os.environ['OPENMC_CROSS_SECTIONS'] = p
                p = None
            got, exc = attempt(DataLibrary.from_xml, p)
            if not exc:
                lib = got
        elif k == 'find':
            got, exc = attempt(lib.get_by_material, op['m'])
            found = [entry(got)] if got is not None and not exc else []
        out.append(dict(exc=exc, lib=[entry(x) for x in lib.libraries], found=found, xml=xml))
    os.chdir('/')
    shutil.rmtree(root(b))
    return [dict(ev='history', ops=c['ops'], out=out)]


def run(log, a):
    rng = a.rng
    cases = load_cases(a.cases)
    rng.shuffle(cases)
    n = 1500 if a.thorough else 350
    long_ = [c for c in cases if len(c['ops']) > 10]
    todo = long_[:n] + [c for c in cases if len(c['ops']) <= 10][:n]
    for i, c in enumerate(todo):
        c.update(names=i % len(NAMES), path=i % 3 == 0)
    parallel(log, a, todo, history)


main(run)
