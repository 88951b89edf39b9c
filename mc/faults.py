"""Python side of the file-system shim: run a function in a child process with a fault or under a schedule."""
import ctypes
import os
import signal
import traceback

COUNT, KILL, TORN, ERROR, ERROR_ALL, INTR, SCHED = range(1, 8)
MODES = dict(kill=KILL, torn=TORN, error=ERROR, error_all=ERROR_ALL, intr=INTR)


def arm(mode, target=0, param=0, log=-1, r=-1, w=-1):
    ctypes.CDLL(None).shim_arm(mode, ctypes.c_long(target), ctypes.c_long(param), log, r, w)


def child(fn, mode, target=0, param=0, logfile=None, r=-1, w=-1, close=()):
    """fork; run fn() armed; exit 0 if it returned, 1 if it raised (text in ./child_error)"""
    pid = os.fork()
    if pid:
        return pid
    rc = 1
    try:
        for fd in close:
            os.close(fd)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        log = os.open(logfile, os.O_CREAT | os.O_WRONLY | os.O_TRUNC) if logfile else -1
        try:
            arm(mode, target, param, log, r, w)
            fn()
            rc = 0
        except BaseException:
            arm(0)
            with open('child_error%d' % os.getpid(), 'w') as f:
                f.write(traceback.format_exc())
        arm(0)
    finally:
        os._exit(rc)


def wait(pid):
    st = os.waitpid(pid, 0)[1]
    err = 'child_error%d' % pid
    text = ''
    if os.path.exists(err):
        text = open(err).read()
        os.unlink(err)
    return os.waitstatus_to_exitcode(st), text


def count(fn):
    """list of operations of fn"""
    rc, text = wait(child(fn, COUNT, logfile='oplog'))
    ops = open('oplog').read().splitlines()
    os.unlink('oplog')
    return rc, text, [o.split(' ', 2) for o in ops]


def schedule(fns, first, cuts):
    """run fns (2) in child processes, one file-system operation at a time: first runs cuts[0] operations, then the
    other runs cuts[1], and so on; after the last cut whoever is on runs to its end.  -> exit codes, errors, trace"""
    procs = []
    for i, fn in enumerate(fns):
        r1, w1 = os.pipe()      # child -> parent
        r2, w2 = os.pipe()      # parent -> child
        close = [r1, w2] + [fd for p in procs for fd in (p['r'], p['w'])]
        pid = child(fn, SCHED, r=r2, w=w1, close=close)
        os.close(w1)
        os.close(r2)
        procs.append(dict(pid=pid, r=r1, w=w2, done=False, n=0))
    turn, left, cuts = first, None, list(cuts)
    left = cuts.pop(0) if cuts else None
    trace = []
    while True:
        p = procs[turn]
        if p['done']:
            if all(q['done'] for q in procs):
                break
            turn, left = 1 - turn, None
            continue
        if left == 0:
            turn = 1 - turn
            left = cuts.pop(0) if cuts else None
            continue
        c = os.read(p['r'], 1)
        if not c:
            p['done'] = True
            continue
        trace.append(turn)
        p['n'] += 1
        if left is not None:
            left -= 1
        os.write(p['w'], b'g')
    out = []
    for p in procs:
        os.close(p['r'])
        os.close(p['w'])
        out.append(wait(p['pid']))
    return out, trace, [p['n'] for p in procs]
