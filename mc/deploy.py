"""Builds a deployment (sequence of raw files of one Gem) from a JSON description, with its truth."""
import os

from mc import gemgen as g

STARTS = {'plain': g.utc(2021, 3, 4, 0, 59, 50), 'leapday': g.utc(2020, 2, 28, 23, 59, 53),
          'newyear': g.utc(2020, 12, 31, 23, 59, 50), 'early': g.utc(2021, 3, 4, 0, 59, 40), 'noon': g.utc(2022, 7, 9, 12, 30, 0)}
DUR = 13.0


def infile_gaps(kind, ta, tb):
    mid = ta + 6.0
    return {None: [], 'mid005': [(mid + .002, mid + 0.042)], 'mid006': [(mid, mid + 0.06)], 'mid03': [(mid + .503, mid + .803)],
            'mid09': [(mid, mid + 0.9)], 'mid098': [(mid + .001, mid + 0.983)], 'first': [(ta + 0.005, ta + 0.305)],
            'last': [(tb - 0.315, tb - 0.015)], 'two': [(ta + 4, ta + 4.2), (tb - 4, tb - 3.6)],
            'island': [(mid, mid + .1), (mid + .15, mid + .3)]}[kind]


def build(files, start='plain', phase=0.0, ppm=0.0, K=1000.0, dur=DUR):
    """files: list of dict(gap=s before it, infile=kind, reboot=bool, skip=numbers skipped before it).
    -> [(num, Recording)]"""
    t = STARTS[start] + phase
    tref = STARTS[start]
    clock = g.Clock(t - 50.0, ppm)
    num = 0
    out = []
    for i, f in enumerate(files):
        t += f.get('gap', 0) if i else 0
        num += f.get('skip', 0)
        if f.get('reboot'):
            clock = g.Clock(t - f.get('uptime', 2.345), ppm)
        d = f.get('dur', dur)
        rec = g.Recording(clock, t, t + d, K=K, tref=tref, gaps=infile_gaps(f.get('infile'), t, t + d))
        out.append((num, rec))
        t += d
        num += 1
    return out, tref


def write(dirname, recs, sn='077', version='0.91', config=(1, 15, 20, 0, 0, 0)):
    os.makedirs(dirname, exist_ok=True)
    return [g.write_recording(dirname, n, sn, r, version, config) for n, r in recs]
