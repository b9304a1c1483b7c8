"""C24: on every solar day the sun is up exactly from its sunrise to its sunset.

State = one instant of a walk through the solar days of a place; the automaton night -> day -> night of the walk is compared with the
reported events. Sunrise and sunset come from the declination and solar time, the elevation from the position code, so that each
side is an oracle for the other.
"""
import numpy as np
import pandas as pd

from lib import drive, space

SLACK = 0.055     # degrees, as in C15: the two roads to the elevation


def check(ctx, uc, t, y, x, alg, eng, tz=None, tag=''):
    arg = t if tz is None else pd.DatetimeIndex(t).tz_localize('UTC').tz_convert(tz)
    s = drive.call(uc, arg, y, x, alg, eng, False)
    nt, nla, nlo = len(t), np.size(y), np.size(x)
    ns = lambda a: drive.to_cells(a, uc, nt, nla, nlo).astype('M8[ns]').astype('int64')  # noqa: E731
    fl = lambda a: drive.to_cells(a, uc, nt, nla, nlo).astype(float)  # noqa: E731
    el = fl(s.elevation)
    if uc == 'regular_grid':
        lat, lon = (v.ravel()[None, :] for v in np.meshgrid(np.asarray(y, float), np.asarray(x, float), indexing='ij'))
    else:
        lat, lon = np.asarray(y, float), np.asarray(x, float)
        lat, lon = (lat, lon) if uc == 'transect' else (lat[None, :], lon[None, :])
    lat, lon = np.broadcast_to(lat, el.shape), np.broadcast_to(lon, el.shape)
    col = (lambda v: v) if uc == 'transect' else (lambda v: np.broadcast_to(v[:, None], el.shape))
    utc = col(np.asarray(t).astype('M8[ns]').astype('int64'))
    wall = utc if tz is None else col(np.asarray(arg.tz_localize(None), 'M8[ns]').astype('int64'))
    tst = ns(s.true_solar_time)
    length = fl(s.daylight_length())
    never = np.isnan(length)
    ctx.cover(states=el.size, transitions=6*el.size, traces=1)
    key = f'{uc}/{alg}/{eng}' + ('/zone' if tz else '')

    def bad(what, m, txt):
        k = tuple(int(i) for i in np.argwhere(m)[0])
        tk = np.asarray(t)[k[0]]
        c = drive.call_src(uc, np.array([tk]), [float(lat[k])], [float(lon[k])], alg, eng, False)
        rep = (drive.PRELUDE + f's = {c}\nprint(s.elevation.values, s.sunrise("utc").values, s.sunset("utc").values, s.true_solar_time.values)\n'
               'e = float(s.elevation.values.ravel()[0])\nr, w = s.sunrise("utc").values.ravel()[0], s.sunset("utc").values.ravel()[0]\n'
               f't = np.datetime64("{tk}")\nup = (r <= t <= w) if not np.isnat(r) else None\n'
               f'assert up is None or (e > -{SLACK} if up else e < {SLACK})\n')
        ctx.fail(f'{key}/{what}', f'{what} at {tk} lat={lat[k]!r} lon={lon[k]!r} zone={tz} ({tag}): elevation {el[k]:.4f}, {txt(k)}; {int(m.sum())} cells', rep)

    # the events are those of the solar day of the instant
    for ev, f in (('sunrise', s.sunrise), ('sunset', s.sunset)):
        r = ns(f('tst'))
        m = ~never & (r//(86400*10**9) != tst//(86400*10**9))
        if m.any():
            bad(f'{ev} day', m, lambda k: f'{ev} {np.int64(r[k]).astype("M8[ns]")} on the solar day of {np.int64(tst[k]).astype("M8[ns]")}')    # noqa: B023
    for unit, now in (('tst', tst), ('utc', utc), ('local', wall)):
        r, w = ns(s.sunrise(unit)), ns(s.sunset(unit))
        nat = r == np.iinfo('int64').min
        m = nat != never
        if m.any():
            bad(f'{unit} defined', m, lambda k: f'sunrise {r[k]}, daylight length {length[k]}')
        up = (r <= now) & (now <= w)
        m = ~never & (((el > SLACK) & ~up) | ((el < -SLACK) & up))
        if m.any():
            bad(unit, m, lambda k: f'sunrise {np.int64(r[k]).astype("M8[ns]")} sunset {np.int64(w[k]).astype("M8[ns]")} '
                f'now {np.int64(now[k]).astype("M8[ns]")}')
    # hour angle of the instant against the sunrise angle
    ha = (tst % (86400*10**9))/2.4e11 - 180
    wr, ws = fl(s.sunrise('deg')), fl(s.sunset('deg'))
    with np.errstate(invalid='ignore'):
        # hours angles are positive in the afternoon, but positive for sunrise in the package's convention
        up = (ha >= -wr) & (ha <= -ws)
        m = ~never & (((el > SLACK) & ~up) | ((el < -SLACK) & up))
    if m.any():
        bad('deg', m, lambda k: f'sunrise {wr[k]} sunset {ws[k]} hour angle {ha[k]}')
    # polar day and night
    dec = fl(s.declination)
    day = lat*dec > 0
    m = never & ((day & (el < -SLACK)) | (~day & (el > SLACK)))
    if m.any():
        bad('polar', m, lambda k: 'but sunrise is undefined')
    return el, length


def walk(ctx, day, lats, lons, alg, eng, step):
    """a whole solar day of each place: one sunrise, one sunset and as much daylight as reported"""
    for lat in lats:
        for lon in lons:
            start = np.datetime64(day, 's') - np.timedelta64(int(round(240*lon)), 's')
            t = start + np.arange(0, 86400, step).astype('m8[s]')
            el, length = check(ctx, 'sites', t, [lat], [lon], alg, eng, None, f'solar day {day}')
            if abs(lat) > 60:
                continue
            up = el[:, 0] > 0
            turns = int((up[1:] != up[:-1]).sum())
            hours, said = up.sum()*step/3600, float(length[len(t)//2, 0])
            if turns != 2 or not abs(hours - said) < 2*step/3600 + 0.2:
                ctx.fail(f'{alg}/{eng}/daylight', f'the sun rises or sets {turns} times and is up for {hours:.2f} h on {day} at lat={lat} lon={lon}; '
                         f'the daylight length is {said:.4f} h')


def task(ctx, what, *args):
    th = ctx.thorough
    if what == 'alg':
        alg, eng = args
        fl, fo = space.product(space.LATS, space.LONS)
        n = len(space.EDGE)
        check(ctx, 'regular_grid', space.EDGE, space.LATS, space.LONS, alg, eng, None, 'edge')
        check(ctx, 'sites', space.EDGE, fl, fo, alg, eng, None, 'edge')
        check(ctx, 'transect', np.repeat(space.EDGE, fl.size), np.tile(fl, n), np.tile(fo, n), alg, eng, None, 'edge')
        for d in ('1950-01-01', '1969-12-31', '2000-02-29', '2024-03-20', '2024-06-20', '2024-09-22', '2024-12-21', '2024-12-31', '2100-12-31'):
            walk(ctx, d, (-60., -33.3, 0., 23.44, 47., 60., 66.56, 78., -90.), (-180., -74., 0., 12.5, 151., 179.99), alg, eng, 120 if th else 600)
        lat = np.array([-89., -70, -67, -66.5, -66, -45, -10, 0, 33, 52, 64, 66.4, 66.7, 68, 72, 85])
        check(ctx, 'regular_grid', space.daterange('2023-12-01', '2025-02-01', 1801 if th else 3*3600 + 7), lat, [-180., -90., 0., 100., 179.9], alg, eng, None, 'year')
        polar = np.array([85., 88., 89., 89.5, 89.6, 89.8, 89.9, 89.95, 89.999, 90.])
        for d in ('2024-03-18', '2024-09-20', '1999-03-19', '2050-09-21'):
            check(ctx, 'regular_grid', space.daterange(d, np.datetime64(d) + 5, 600 if th else 3607), np.concatenate([polar, -polar]), [-180., 0., 100.],
                  alg, eng, None, 'equinox at the poles')
        # around solar midnight, when the equation of time is extreme
        for d in ('2024-11-03', '2024-02-11', '2024-07-26', '1957-11-03'):
            for x in (0., -179.9, 120.):
                mid = np.datetime64(d, 's') - np.timedelta64(int(240*x), 's')
                check(ctx, 'sites', mid + np.arange(-1500, 1501, 10 if th else 60).astype('m8[s]'), [-45., 0., 50.], [x, x, x], alg, eng, None, 'solar midnight')
        days = space.daterange('1950-01-01', '2101-01-01', 86400)
        k = np.arange(len(days))
        for f in (7919, 104729):
            check(ctx, 'transect', days + (k*f % 86400).astype('m8[s]'), (k*37.7) % 180 - 90, (k*101.3) % 360 - 180, alg, eng, None, 'every day')
        # every second around a sunrise and a sunset
        for lat_, lon_, d in ((40., -3., '2024-03-31'), (-33., 151., '2024-12-31'), (64., -180., '2000-02-29'), (0., 179.9, '1970-01-01')):
            s = drive.call('sites', space.dt(d + 'T12:00:00'), [lat_], [lon_], alg, eng, False)
            for e in (s.sunrise('utc'), s.sunset('utc')):
                t = e.values.ravel()[0].astype('M8[s]') + np.arange(-900, 901, 1 if th else 15).astype('m8[s]')
                check(ctx, 'sites', t, [lat_], [lon_], alg, eng, None, 'around the event')
        ctx.sample(dict(alg=alg, eng=eng, walk='solar day in steps, night-day-night'))
    else:
        # in a zone without a clock change within a day of the instants, the wall clock orders events like utc does
        tz, uc = args
        t = np.concatenate([np.datetime64(d) + np.arange(0, 86400, 900 if th else 3600).astype('m8[s]') for d in
                            ('2024-01-15', '2024-02-29', '2024-05-15', '2024-06-20', '2024-08-15', '2024-12-31', '1999-12-31', '2035-06-01')]).astype('M8[s]')
        for y, x in (((-45., 0.), (179.9, -180.)), ((36.9, 62.), (-3.8, -75.)), ((70., -80.), (0., 100.))):
            y, x = np.array(y), np.array(x)
            if uc == 'transect':
                for i in range(2):
                    check(ctx, uc, t, np.full(len(t), y[i]), np.full(len(t), x[i]), 'psa', 'numexpr', tz, 'zones')
            else:
                check(ctx, uc, t, y, x, 'psa', 'numexpr', tz, 'zones')


def run(ctx):
    ctx.assume('elevations within 0.055 degrees of the horizon may be on either side (C15 bounds the difference between the two roads)')
    zones = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Kiritimati', 'Pacific/Pago_Pago']
    ctx.pmap('checks.c24', [('alg', a, e) for a, e in drive.CONFIGS] + [('zone', z, uc) for z in zones for uc in drive.USECASES])
