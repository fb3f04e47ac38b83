"""C11: GPS/UTC time - the same in every simulated time zone and process restart, exact and invertible around leap seconds."""
import importlib
import math
import os
import time

from props.common import gen_sched

META = {
    'runs': {'quick': 3000, 'thorough': 200000},
    'level': 'exploration',
    'rule': 'A run is a history of 1-5 simulated process starts: each sets the machine\'s time zone (UTC offsets, zones with and without '
            'summer time, historical changes, POSIX rules), loads the module afresh, optionally changes the zone again while it runs, '
            'and converts 4-30 seeded instants (leap second insertions and their neighbourhood, summer time changes, week rollovers, '
            'random instants 1980-2060), some of them from simulated threads. Non-trivial: a zone other than UTC was active.',
    'real': ['resippy time utilities', 'libc time zone code'],
    'stub': ['the machine\'s time zone and calendar instant', 'thread scheduler'],
    'assumptions': ['instants before the GPS epoch are outside the domain', 'no leap second after 2017 (none has been announced)'],
}
# days on which TAI-UTC grew, as (year, month); counted here from the IERS list, independently of the code
LEAP = [(1981, 7), (1982, 7), (1983, 7), (1985, 7), (1988, 1), (1990, 1), (1991, 1), (1992, 7), (1993, 7), (1994, 7), (1996, 1), (1997, 7),
        (1999, 1), (2006, 1), (2009, 1), (2012, 7), (2015, 7), (2017, 1)]
ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX-14', 'YYY+12', 'NPT-5:45', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
         'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Pacific/Apia', 'Africa/Monrovia', 'Asia/Kathmandu', 'Antarctica/Troll', 'Australia/Lord_Howe']


def days(y, m, d=1):
    """days since 1970-01-01 (proleptic Gregorian)"""
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


LEAPT = [days(y, m) * 86400 for y, m in LEAP]
EPOCH = days(1980, 1, 6) * 86400
WEEK = 604800


def gen(rng, tier, i):
    items = []
    for _ in range(rng.randrange(1, 6)):
        ts = []
        for _ in range(rng.randrange(4, 31)):
            k = rng.random()
            if k < 0.45:
                t = rng.choice(LEAPT) + rng.choice([-1, 0, 1, -0.5, 0.5, -19, -18, 17, rng.uniform(-40, 40), rng.uniform(-86400, 86400)])
            elif k < 0.6:
                t = EPOCH + rng.randrange(1, 4000) * WEEK + rng.choice([0, 1, -1, -18, 18, rng.uniform(-30, 30)])
            elif k < 0.65:
                t = EPOCH + rng.choice([0, 0.25, 1, 3600, 86400])
            elif k < 0.75:
                t = float(days(rng.randrange(1981, 2038), rng.choice([3, 4, 10, 11]), rng.randrange(1, 29)) * 86400 + rng.choice([3600, 7200, 25200]))
            else:
                t = rng.uniform(EPOCH, days(2060, 1) * 86400)
            ts.append(t if rng.random() < 0.3 and isinstance(t, int) else round(float(t), rng.choice([0, 3, 6])))
        items.append({'zone': rng.choice(ZONES), 'later': rng.choice([None, None, rng.choice(ZONES)]), 'ts': ts, 'threads': rng.random() < 0.2})
    return {'items': items, 'sched': gen_sched(rng)}


def offset(t):
    return sum(1 for x in LEAPT if t >= x)


def zone(z):
    os.environ['TZ'] = z
    time.tzset()


def problem(m, t):
    want = t - EPOCH + offset(t)
    g = m.utc_timestamp_to_gps_timestamp(t)
    if abs(g - want) > 2e-6:
        return 'gps time of utc %r is %r instead of %r' % (t, g, want)
    u = m.gps_timestamp_to_utc_timestamp(want)
    if abs(u - t) > 2e-6:
        return 'utc of gps %r is %r instead of %r' % (want, u, t)
    w, s = m.utc_timestamp_to_gps_week_and_seconds(t)
    if w != int(w) or not 0 <= s < WEEK + 5e-6 or abs((w - math.floor(want / WEEK)) * WEEK + s - want % WEEK) > 5e-6 or \
            (w != math.floor(want / WEEK) and min(want % WEEK, WEEK - want % WEEK) > 5e-6):
        return 'utc %r is second %r of week %r instead of gps second %r' % (t, s, w, want)
    # the second that is inserted: gps runs on, utc repeats or stalls, and never disagrees by more than that second
    for d in (-1.0, -0.5, 0.5, 1.0, 17.0, -17.0):
        if want + d < 0:
            continue
        u2 = m.gps_timestamp_to_utc_timestamp(want + d)
        lo, hi = sorted((t, t + d))
        if not lo - 1.000002 <= u2 <= hi + 1.000002:
            return 'utc of gps %r is %r' % (want + d, u2)
    return None


def run(case, ctx):
    from resippy.utils import time_utils as m
    try:
        for n, it in enumerate(case['items']):
            zone(it['zone'])
            m = importlib.reload(m)
            if it['zone'] != 'UTC':
                ctx.fired['machine:time-zone'] += 1
                ctx.faulted = True
            if it['later']:
                zone(it['later'])
                ctx.fired['machine:time-zone-changed-while-running'] += 1
            ctx.simsec += max(it['ts']) - min(it['ts'])
            what = 'start %d in %s%s' % (n, it['zone'], ', then %s' % it['later'] if it['later'] else '')
            last = None
            for t in sorted(it['ts']):
                p = problem(m, t)
                if p:
                    ctx.violate('wrong-time', '%s: %s' % (what, p))
                g = m.utc_timestamp_to_gps_timestamp(t)
                if last is not None and g - last[1] < t - last[0] - 1e-5:
                    ctx.violate('time-runs-backwards', '%s: gps time between utc %r and %r' % (what, last[0], t))
                last = (t, g)
            if it['threads']:
                def prog(j):
                    return lambda s, tid: [problem(m, t) for t in it['ts'][j::2][:4]]
                _, est = ctx.solo_steps(prog(0))
                for r in ctx.threads([prog(j) for j in range(2)], case['sched'], est=est * 2):
                    if r[0] != 'ok':
                        ctx.violate('spurious-failure', '%s: %s' % (what, ctx.exs(r[1])))
                    for p in r[1]:
                        if p:
                            ctx.violate('wrong-time-in-threads', '%s: %s' % (what, p))
            ctx.log(what, len(it['ts']))
    finally:
        zone('UTC')
