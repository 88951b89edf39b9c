import itertools
import os
import shutil

from mc import ops
from mc.harness import Result, require

PROPERTY = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of sequences of calls of the functions and commands in one process, each call compared with the same call '
             'alone in a fresh process')
LEVEL_NOTE = ('all sequences to the stated depth over an alphabet of 36 calls (all public functions and commands, with good and failing arguments) '
              'on one data set, or on one whose files are replaced by others of the same names between two calls; other data and longer sequences are not covered')
RULE = 'a case is a sequence of calls run in a fresh process; non-trivial = distinct last result and sequence'
ASSUMPTIONS = ['the last-used time in log files and station files is not compared', 'invert_for_slowness adds its columns to the table it is given', 'between calls the caller overwrites every object a call returned']
BOUNDS = {'quick': 'all pairs of calls, each call three times, and each call twice with the files replaced in between', 'thorough': 'all triples of calls, and all pairs with the files replaced in between, except triples with two of the slow ones (huddle test, parallel command)'}
TIMEOUT = 120
SLOW = {'huddle', 'huddlesome', 'commandcodes', 'command'}
REF = {}


def setup(sut):
    d = os.path.abspath('c25tmpl')
    os.mkdir(d)
    REF['dir'] = d
    here = os.getcwd()
    os.chdir(d)
    r = ops.child(lambda: ops.quiet(ops.dataset))
    REF['failed'] = r
    os.mkdir(d + '/other')
    os.chdir(d + '/other')
    REF['failed'] = REF['failed'] or ops.child(lambda: ops.quiet(lambda: ops.dataset(1)))
    for n in ops.OPS:
        REF['other', n] = ops.child(lambda: sequence([n]))
        shutil.rmtree('o_0_' + n, ignore_errors=True)
    os.chdir(d)
    os.rename('other', here + '/c25other')
    REF['other'] = here + '/c25other'
    for n in ops.OPS:
        REF[n] = ops.child(lambda: sequence([n]))
        shutil.rmtree('o_0_' + n, ignore_errors=True)
    os.chdir(here)


def sequence(names, other=None):
    """other: a folder whose contents replace those of the current one after the first call"""
    w = ops.World()
    args = ops.form(vars(w))
    first = ops.inputs()
    here = os.getcwd()
    env = dict(os.environ)
    out = []
    for i, n in enumerate(names):
        if i and other:
            for f in os.listdir('.'):
                if not f.startswith('o_'):
                    shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)
            shutil.copytree(other, '.', dirs_exist_ok=True)
            w = ops.World()
            args, first = ops.form(vars(w)), ops.inputs()
        before = {}
        for j in range(i):
            before[j] = ops.files('o_%d_%s' % (j, names[j]))
        keep = []
        r = ops.do(n, w, 'o_%d_%s' % (i, n), keep)
        r['args'] = [k for k, v in ops.form(vars(w)).items() if args[k] != v]
        now = ops.inputs()
        r['inputs'] = sorted(k for k in {**now, **first} if now.get(k) != first.get(k))
        r['cwd'] = os.getcwd() == here
        r['env'] = sorted(k for k in {**env, **os.environ} if env.get(k) != os.environ.get(k))
        r['older'] = [names[j] for j in before if ops.files('o_%d_%s' % (j, names[j])) != before[j]]
        out.append(r)
        ops.scribble(keep[0])
        if ops.form(vars(w)) != args:       # the call gave back what it was given
            w = ops.World()
    return out


def cases(tier):
    names = sorted(ops.OPS)
    for n in names:
        yield dict(seq=[n])
    for s in itertools.product(names, repeat=2):
        yield dict(seq=list(s))
    for n in names:
        yield dict(seq=[n] * 3)
    for s in itertools.product(names, repeat=2):
        if tier != 'quick' or s[0] == s[1]:
            yield dict(seq=list(s), replaced=1)
    if tier != 'quick':
        for s in itertools.product(names, repeat=3):
            if sum(n in SLOW for n in s) < 2 and len(set(s)) > 1:
                yield dict(seq=list(s))


def differ(a, b):
    """where two results differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        return '; '.join('%s: %s' % (k, differ(a.get(k), b.get(k))) for k in sorted({*a, *b}) if a.get(k) != b.get(k))[:700]
    return '%s instead of %s' % (str(a)[:250], str(b)[:250])


def run(case, work):
    require(REF['failed'] is None, 'converting good recordings: %s' % REF['failed'])
    shutil.copytree(REF['dir'], 'd')
    os.chdir('d')
    seq = case['seq']
    got = ops.child(lambda: sequence(seq, REF['other'] if case.get('replaced') else None))
    require(isinstance(got, list), lambda: 'calls %s: %s' % (seq, got))
    for i, (n, r) in enumerate(zip(seq, got)):
        other = i and case.get('replaced')
        what = 'call %s after %s%s' % (n, seq[:i], ' with other contents under the same names' * bool(other))
        require(not r['inputs'], lambda: '%s: changed its input files %s' % (what, r['inputs'][:5]))
        require(not r['args'], lambda: '%s: changed objects passed to it: %s' % (what, r['args']))
        require(not r['older'], lambda: '%s: changed files written by an earlier call (%s)' % (what, r['older']))
        require(r['cwd'], lambda: '%s: changed the current folder' % what)
        require(not r['env'], lambda: '%s: changed the environment: %s' % (what, r['env']))
        ref = REF['other', n] if other else REF[n]
        ref = ref[0] if isinstance(ref, list) else ref
        for k in ('ret', 'files'):
            a, b = (x[k] if isinstance(x, dict) and k in x else x for x in (r, ref))
            if k == 'ret':
                a, b = (str(x).replace('o_%d_%s' % (j, n), 'OUT') for x, j in ((a, i), (b, 0)))
            require(a == b, lambda: '%s gives a result other than that of the same call alone: %s' % (what, differ(a, b)))
    return Result(key=[seq, case.get('replaced', 0)], states=[seq[:i] for i in range(1, len(seq) + 1)], transitions=len(seq), executions=len(seq))
