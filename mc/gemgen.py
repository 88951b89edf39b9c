"""Synthetic Gem raw recordings with a known ground truth.

The recorded pressure is a ramp: counts(t) = K * (t - T_REF).  Every sample of
every output therefore carries its own acquisition time in its value, so a lost,
duplicated, shifted, reordered or invented sample is visible in the output.
"""
import datetime as _dt
import os

MS = 0.001024            # seconds per firmware "millisecond"
CORR = 8.93              # documented acquisition delay, firmware ms


def utc(y, mo, d, h=0, mi=0, s=0.0):
    return (_dt.datetime(y, mo, d, h, mi, tzinfo=_dt.timezone.utc).timestamp() + s)


class Clock:
    """Logger clock: true time t  <->  firmware millis m.   t = t0 + MS*(1+ppm*1e-6)*m"""

    def __init__(self, t0, ppm=0.0):
        self.t0 = t0
        self.ppm = ppm

    def millis(self, t):
        return (t - self.t0) / (MS * (1 + self.ppm * 1e-6))

    def time(self, m):
        return self.t0 + m * MS * (1 + self.ppm * 1e-6)


def fields(t):
    d = _dt.datetime.fromtimestamp(int(t), tz=_dt.timezone.utc)
    return d.year, d.month, d.day, d.hour, d.minute, d.second


def is_old(version):
    return version in ('0.8', '0.85')


def header(version, sn, config=(1, 15, 20, 0, 0, 0)):
    out = ['#GemCSV%s' % version]
    if version == '1.10':
        out.append('#adcMSSAMP')
    m = '#M,ms,batt(V),temp(C),A2,A3,maxLag,minFree,maxUsed,maxOver,gpsFlag,freeStack1,freeStackIdle'
    if version == '0.8':
        m = m.replace('A2,A3,', '')
    out += ['#D,msSamp,ADC' if is_old(version) else '#DmsSamp,ADC',
            '#G,msPPS,msLag,yr,mo,day,hr,min,sec,lat,lon', m, 'S,%s' % sn, '#Firmware0.962']
    if config is not None and version not in ('0.8', '0.85', '0.85C'):
        out.append('C,' + ','.join(str(c) for c in config))
    return out


class Recording:
    """One raw file covering true time [ta, tb)."""

    def __init__(self, clock, ta, tb, K=1000.0, tref=None, lat=43.6, lon=-116.2, gps=True,
                 gps_times=None, batt=4.0, temp=20.0, dt=0.01, gaps=()):
        self.clock, self.ta, self.tb, self.K = clock, ta, tb, K
        self.tref = ta if tref is None else tref
        self.lat, self.lon = lat, lon
        # samples: integer millis
        self.samples = []          # (millis, adc)
        n = int(round((tb - ta) / dt))
        for k in range(n):
            m = int(round(clock.millis(ta + k * dt) - CORR))
            t = clock.time(m + CORR)
            if any(a <= ta + k * dt < b for a, b in gaps):
                continue
            self.samples.append((m, int(round(K * (t - self.tref)))))
        self.fixes = []            # (millis, lag, y,mo,d,h,mi,s,lat,lon)
        if gps:
            times = gps_times
            if times is None:
                times = [t for t in range(int(ta) - 1, int(tb) + 2) if ta <= t < tb]
            for t in times:
                self.fixes.append([clock.millis(t), 90.0] + list(fields(t)) + [lat, lon])
        self.meta = []
        t = ta + 0.005
        while t < tb:
            m = int(clock.millis(t))
            self.meta.append([m, batt, temp, 1.5, 2.1, 3, 74, 1, 0, 1, 48, 118])
            t += 1.0

    def events(self):
        """time-ordered (millis, kind, payload): a G line is logged `lag` ms after its PPS."""
        ev = [(m, 0, 'D', (m, a)) for m, a in self.samples]
        at = getattr(self, 'fix_at', {})        # when a fix is logged, if not after its own milliseconds
        ev += [(at.get(i, f[0] + f[1]), 1, 'G', f) for i, f in enumerate(self.fixes)]
        ev += [(m[0], 2, 'M', m) for m in self.meta]
        ev.sort(key=lambda e: (e[0], e[1]))
        return ev


def fmt_g(f, roll, version='0.91'):
    m = f[0] % roll
    if version not in ('0.91', '1.10'):     # older formats have whole milliseconds
        return 'G,%d,%d,%d,%d,%d,%d,%d,%.1f,%.5f,%.5f' % (
            round(f[0]) % roll, f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9])
    return 'G,%.2f,%.2f,%d,%d,%d,%d,%d,%.1f,%.5f,%.5f' % (
        m, f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9])


def fmt_m(m, roll, version='0.91'):
    if version == '0.8':
        return 'M,%d,%.2f,%.1f,%d,%d,%d,%d,%d,%d,%d' % tuple([m[0] % roll] + m[1:3] + m[5:])
    return 'M,%d,%.2f,%.1f,%.3f,%.3f,%d,%d,%d,%d,%d,%d,%d' % tuple([m[0] % roll] + m[1:])


def body(rec, version='0.91', rp_lines=True):
    """raw-file lines of a recording in the given format"""
    old = is_old(version)
    roll = 2 ** 16 if old else 2 ** 13
    out = []
    prev_adc = 0
    prev_ms = None
    for _, _, kind, x in rec.events():
        if kind == 'D':
            d = x[1] - prev_adc
            prev_adc = x[1]
            if old:
                out.append('D,%d,%d' % (x[0] % roll, x[1]))
                continue
            if version == '1.10' and prev_ms is not None:
                dm = (x[0] - prev_ms)
                if abs(d) <= 12 and abs(dm - 10) <= 12:
                    if dm == 10:
                        out.append(chr(109 + d))
                    else:
                        out.append(chr(109 + dm - 10) + chr(109 + d))
                    prev_ms = x[0]
                    continue
            prev_ms = x[0]
            out.append('D%d,%d' % (x[0] % roll, d))
        elif kind == 'G':
            if rp_lines:
                out.append('P,%.2f' % (x[0] % roll))
                out.append('R,2,$GPRMC,190031.928,A,8900.0012,N,00059.9610,E,0.02,278.12,250122,,,A*6D')
            out.append(fmt_g(x, roll, version))
        elif kind == 'M':
            out.append(fmt_m(x, roll, version))
    return out


def write(path, lines):
    with open(path, 'w', newline='') as f:
        f.write('\n'.join(lines) + '\n')


def write_recording(dirname, num, sn, rec, version='0.91', config=(1, 15, 20, 0, 0, 0), ext=None):
    if ext is None:
        ext = 'TXT' if version == '0.8' else sn
    fn = os.path.join(dirname, 'FILE%04d.%s' % (num, ext))
    write(fn, header(version, sn, config) + body(rec, version))
    return fn
