import json
import os
import shutil
import subprocess
import sys
import time

import gemlog

from mc import ops
from mc.checks.c25 import differ
from mc.harness import VERIF, Result, Violation, require

PROPERTY = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of what surrounds a call (every order of directory listings of small folders, hash seeds, time zones, spellings and '
             'names of folders, unrelated files), each call compared with the same call in plain surroundings')
LEVEL_NOTE = ('the nondeterminism of the surroundings is resolved by the check: os.listdir and os.scandir return their entries in every listed order, '
              'strings hash in several orders; all public functions and commands are called in each; other data are not covered')
RULE = 'a case is (call, surroundings); non-trivial = distinct pair'
ASSUMPTIONS = ['in a folder of n > 4 entries the orders are all rotations, all exchanges of two entries, and the reversal (thorough: also of each of these reversed)',
               'paths are given as strings']
BOUNDS = {'quick': '24 to 40 listing orders; 8 hash seeds; 4 time zones; 14 spellings of input paths, 8 of output paths, 9 sets of unrelated files',
          'thorough': 'listing orders for folders of up to 16 entries; 40 hash seeds; 8 time zones'}
TIMEOUT = 200
REF = {}
ZONES = ['MST7MDT,M3.2.0,M11.1.0', 'NPT-5:45', 'LINT-14', 'AoE12', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NST3:30NDT,M3.2.0,M11.1.0', 'XXX-0:01', 'ABC11:59']
SPELL = ['dot', 'slash', 'abs', 'absslash', 'up', 'double', 'space', 'unicode', 'dots', 'like', 'digits', 'bracket', 'question', 'link']
NAMES = dict(space='my data', unicode='donn\xe9es \u6c34', dots='v1.2.data', like='FILE0000.061', digits='0612', bracket='set[1]', question='a?b')
OUT = ['new', 'slash', 'abs', 'deep', 'space', 'dots', 'bracket', 'like']
JUNK = ['hidden', 'backup', 'notes', 'mac', 'dir', 'longnum', 'case', 'empty', 'other']


def orders(n, tier):
    """orders of n entries"""
    import itertools
    ids = list(range(n))
    if n <= 4:
        return [list(p) for p in itertools.permutations(ids)]
    out = [ids, ids[::-1]] + [ids[k:] + ids[:k] for k in range(1, n)]
    for i in range(n):
        for j in range(i + 1, n):
            p = ids[:]
            p[i], p[j] = p[j], p[i]
            out.append(p)
    if tier != 'quick':
        out += [p[::-1] for p in out]
    return out


def cases(tier):
    names = sorted(ops.OPS)
    for k in range(40 if tier == 'quick' else 240):
        for n in names:
            if n.startswith('huddle') and k > 5:
                continue
            if n in ('response', 'noise', 'specs', 'deconvolve', 'slowness', 'inventory'):
                if k not in (1, 5):
                    continue
            yield dict(k='order', op=n, order=k, tier=tier)
    for z in ZONES[:4] if tier == 'quick' else ZONES:
        for n in names:
            yield dict(k='zone', op=n, zone=z)
    for s in SPELL:
        for n in names:
            yield dict(k='path', op=n, spell=s)
    for s in OUT:
        for n in names:
            yield dict(k='out', op=n, out=s)
    for j in JUNK:
        for n in names:
            yield dict(k='junk', op=n, junk=j)
    for seed in range(8 if tier == 'quick' else 40):
        yield dict(k='hash', seed=seed + 1)


def setup(sut):
    d = os.path.abspath('c26tmpl')
    os.mkdir(d)
    here = os.getcwd()
    os.chdir(d)
    REF['failed'] = ops.child(lambda: ops.quiet(ops.dataset))
    for n in ops.OPS:
        REF[n] = ops.child(lambda: ops.do(n, ops.World(), 'o_x'))
        shutil.rmtree('o_x', ignore_errors=True)
    REF['dir'] = d
    os.chdir(here)


def permuted(k, tier):
    """from here on directory listings come in order number k"""
    real_list, real_scan = os.listdir, os.scandir

    def order(entries, key):
        entries = sorted(entries, key=key)
        p = orders(len(entries), tier)
        return [entries[i] for i in p[k % len(p)]]

    class Scan:
        def __init__(self, *a):
            with real_scan(*a) as it:
                self.it = iter(order(list(it), lambda e: e.name))

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def close(self):
            pass
    os.listdir = lambda *a: order(real_list(*a), lambda e: e)
    os.scandir = Scan


def litter(kind):
    """files that have nothing to do with the data, in every folder"""
    raw = open('raw/FILE0000.061').read()
    for d in ('raw', 'rawtxt', 'rawbad', 'mseed', 'gps', 'metadata', 'huddle/gps', 'huddle/metadata', 'huddle/mseed'):
        def put(name, text='junk'):
            with open(os.path.join(d, name), 'w') as f:
                f.write(text)
        if kind == 'hidden':
            put('.DS_Store', '\0\1binary')
            put('.hidden')
        elif kind == 'backup':
            for f in sorted(os.listdir(d))[:2]:
                put(f + '~', open(os.path.join(d, f), encoding='latin-1').read()[:3000])
                put(f + '.bak')
                put('#%s#' % f)
        elif kind == 'notes':
            put('notes.txt', 'battery changed\n')
            put('README')
            put('Thumbs.db')
        elif kind == 'mac':
            for f in sorted(os.listdir(d))[:2]:
                put('._' + f, '\0\5\26\7')
        elif kind == 'dir':
            os.mkdir(d + '/old')
            shutil.copy('raw/FILE0000.061', d + '/old/FILE0000.061')
            os.mkdir(d + '/System Volume Information')
        elif kind == 'longnum':
            put('FILE00000.061', raw)
            put('FILE000.061', raw)
            put('XFILE0000.061', raw)
            put('FILE0000.0612', raw)
            put('FILE0001_old.061', raw)
            put('FILE000A.061', raw)
            put('FILE0002 (1).061', raw)
        elif kind == 'case':
            put('file0000.061', raw)
            put('File0001.077', raw)
        elif kind == 'empty':
            put('nothing', '')
            put('nothing.061', '')
        else:
            put('config.json', '{}')
            put('photo 1.jpg', '\xff\xd8')
            put('GEM_CFG.TXT', 'C,1,15,20,0,0,0\n')


IGNORED = {'db', 'merge', 'rename'}     # these take all files a pattern matches


def run_hash(case):
    env = dict(os.environ, PYTHONHASHSEED=str(case['seed']), PYTHONPATH=os.environ['PYTHONPATH'] + os.pathsep + VERIF)
    code = ('import json,os,sys\nfrom mc import ops\nout={}\n'
            'for n in sorted(ops.OPS):\n out[n]=ops.do(n,ops.World(),"o_x_"+n)\n'
            'open("res.json","w").write(json.dumps(out))')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    require(os.path.exists('res.json'), lambda: p.stderr[-800:])
    out = json.load(open('res.json'))
    for n in out:
        ref = json.loads(json.dumps(REF[n]).replace('o_x', 'o_x_' + n))
        require(out[n] == ref, lambda: 'call %s depends on the order of hashes: %s' % (n, differ(out[n], ref)))
    return Result(key=case, states=[['hash', case['seed']]], transitions=len(out), executions=len(out))


def run(case, work):
    require(REF['failed'] is None, 'converting good recordings: %s' % REF['failed'])
    k = case['k']
    shutil.copytree(REF['dir'], 'd')
    os.chdir('d')
    if k == 'hash':
        return run_hash(case)
    op = case['op']
    spell = lambda p: p
    out = 'o_x'
    if k == 'junk':
        if op in IGNORED and case['junk'] not in ('hidden',):
            return Result(key=None)
        litter(case['junk'])
    if k == 'path':
        s = case['spell']
        here = os.getcwd()
        if s in NAMES:
            os.chdir('..')
            os.rename('d', NAMES[s])
            here = os.path.abspath(NAMES[s])
            spell = lambda p: NAMES[s] + '/' + p
        elif s == 'link':
            os.chdir('..')
            os.symlink('d', 'link')
            spell = lambda p: 'link/' + p
        else:
            spell = {'dot': lambda p: './' + p, 'slash': lambda p: p if '.' in p else p + '/', 'abs': lambda p: here + '/' + p,
                     'absslash': lambda p: here + '/' + p + '/' * ('.' not in p), 'up': lambda p: '../d/' + p, 'double': lambda p: './/' + p}[s]
    if k == 'out':
        out = {'new': 'o_y', 'slash': 'o_x/', 'abs': os.path.abspath('o_x'), 'deep': 'o_x/a/b/c', 'space': 'o_x x', 'dots': 'o_v.1.0', 'bracket': 'o_[1]',
               'like': 'o_FILE0000.061'}[case['out']]

    def go():
        if k == 'zone':
            os.environ['TZ'] = case['zone']
            time.tzset()
        w = ops.World(spell, case.get('spell') in ('bracket', 'question'))
        if k == 'order':
            permuted(case['order'], case['tier'])
        return ops.do(op, w, out)
    got = ops.child(go)
    ref = REF[op]
    if got != ref and op.startswith('huddle') and str(got.get('ret')).startswith('raised'):     # known
        v = Violation('%s with %s: %s' % (op, case, got['ret']))
        v.sig = ('folder name with brackets' if case.get('out') == 'bracket' else
                 'other file in the gps folder' if op == 'huddle' and case.get('junk') in ('backup', 'notes', 'dir', 'longnum', 'case', 'empty', 'other') else None)
        raise v
    require(got == ref, lambda: 'call %s with %s: %s' % (op, {a: b for a, b in case.items() if a not in ('op', 'tier')}, differ(got, ref)))
    return Result(key=[op, k, case.get('order'), case.get('zone'), case.get('spell'), case.get('out'), case.get('junk')],
                  states=[[k, case.get('order', case.get('zone', case.get('spell', case.get('out', case.get('junk')))))]], transitions=1)
