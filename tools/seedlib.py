"""Helpers for the demonstrations: write raw Gem files, convert them, read the result."""
import glob
import os
import sys

import numpy as np
import obspy

import gemgen
from gemgen import Clock, Recording, utc, write_recording, header, body, write  # noqa: F401

T0 = utc(2023, 5, 1, 0, 59, 30)


def rec(ta=T0, dur=40, clock=None, **kw):
    return Recording(clock or Clock(ta - 5), ta, ta + dur, **kw)


def raw(num, r, sn='077', dirname='raw', **kw):
    os.makedirs(dirname, exist_ok=True)
    return write_recording(dirname, num, sn, r, **kw)


def conv(sn='077', out='out', **kw):
    import gemlog
    return gemlog.convert('raw', SN=sn, convertedpath=out, **kw)


def out(pattern='out/*'):
    st = obspy.Stream()
    for f in sorted(glob.glob(pattern)):
        st += obspy.read(f)
    st.sort(['starttime'])
    return st


def times(st):
    return np.concatenate([np.round((tr.stats.starttime.timestamp + np.arange(len(tr)) * 0.01) * 100) for tr in st])


def check(cond, msg=''):
    if not cond:
        print('BROKEN:', msg)
        sys.exit(1)
