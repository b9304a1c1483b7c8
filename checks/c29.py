"""C29: the solar chart draws the sun where it is.

The real charts (SolarChart, make_solar_chart) of every combination of place, time zone, requested time, projection and grid; whatever
lines and labels end up in the axes is read back and matched with the sun (sunwhere.sites) at the instants they stand for, computed from
the wall clock with zoneinfo.
"""
import datetime as dt
import itertools
import logging
import os
import re
import tempfile
import types
import zoneinfo

import numpy as np
import pandas as pd

UTC = dt.timezone.utc
EPS = 1e-5      # of the unit vectors


def instants(zone, year, month, day, hour=0, minute=0):
    """all instants with a wall clock: none, one or two"""
    z = zoneinfo.ZoneInfo(zone)
    out = []
    for fold in (0, 1):
        u = dt.datetime(year, month, day, hour, minute, fold=fold, tzinfo=z).astimezone(UTC)
        b = u.astimezone(z)
        if (b.year, b.month, b.day, b.hour, b.minute) == (year, month, day, hour, minute) and u not in out:
            out.append(u)
    return out


class Sky:
    def __init__(self, lat, lon):
        self.lat, self.lon = lat, lon

    def at(self, times):
        import sunwhere
        t = np.array([np.datetime64(x.replace(tzinfo=None), 's') for x in times])
        s = sunwhere.sites(t, self.lat, self.lon)
        return s.azimuth.values[:, 0], s.elevation.values[:, 0]


def vec(az, el):
    az, el = np.radians(az), np.radians(el)
    return np.stack([np.cos(el)*np.cos(az), np.cos(el)*np.sin(az), np.sin(el)], -1)


class Path:
    """a curve: groups of instants (a drawn line must pass through every group, and nowhere else)"""
    def __init__(self, label, sky, groups, need=None):
        self.label = label
        self.flat = [t for g in groups for t in g]
        self.group = np.array([i for i, g in enumerate(groups) for _ in g])
        az, el = sky.at(self.flat)
        self.v = vec(az, el)
        self.el = el
        from scipy.spatial import cKDTree
        self.tree = cKDTree(self.v)
        self.need = set(self.group) if need is None else need

    def matches(self, az, el):
        if not np.all(np.isfinite(el)):
            return False
        v = vec(az, el)
        if self.tree.query(v)[0].max() >= EPS:
            return False
        # every group is passed: one of its instants is met
        from scipy.spatial import cKDTree
        met = set(self.group[cKDTree(v).query(self.v)[0] < EPS])
        return self.need <= met


def day_path(sky, zone, y, m, d):
    """minutes of the local day, by hours"""
    groups = []
    for h in range(24):
        g = [u for mi in range(60) for u in instants(zone, y, m, d, h, mi)]
        if g:
            groups.append(sorted(g))
    return Path(f'path of {y}-{m:02d}-{d:02d} in {zone}', sky, groups)


def analemma(sky, zone, y, h, mi):
    groups = []
    day = dt.date(y, 1, 1)
    while day.year == y:
        g = instants(zone, y, day.month, day.day, h, mi)
        if g:
            groups.append(g)
        day += dt.timedelta(1)
    # days on which the wall clock does not exist or occurs twice may be left out
    return Path(f'analemma of {h}:{mi:02d} in {zone}, {y}', sky, groups, {i for i, g in enumerate(groups) if len(g) == 1})


def utc_analemma(sky, u):
    days = [u + dt.timedelta(k) for k in range(-367, 368)]
    p = Path(f'analemma of {u:%H:%M} UTC', sky, [[d] for d in days])
    # of some year around the instant
    p.need = set()
    return p


def read(ax, polar):
    lines = []
    for ln in ax.lines:
        x, y = (np.asarray(v, float) for v in (ln.get_xdata(), ln.get_ydata()))
        lines.append((np.degrees(x) if polar else x, y))
    texts = []
    for tx in ax.texts:
        x, y = (np.asarray(v, float).item() if np.size(v) == 1 else np.nan for v in tx.get_position())
        data = tx.get_transform() is ax.transData or tx.get_transform() == ax.transData
        texts.append((tx.get_text(), data, np.degrees(x) if polar and data else x, y))
    return lines, texts


def chart(ctx, lat, lon, zone, when, polar, grid):
    import matplotlib
    matplotlib.use('Agg')
    logging.getLogger('matplotlib').setLevel(logging.CRITICAL)
    import pylab as pl
    from sunwhere._cli import solar_chart as sc
    key = f'{lat}/{lon}/{zone}/{when}/{"polar" if polar else "plane"}/{grid}'
    case = f'chart of {lat}, {lon} in {zone}, time {when}, {"polar" if polar else "rectilinear"}, grid {grid}'

    def draw():
        if grid is None:
            pl.close('all')
            sc.make_solar_chart(lat, lon, when, zone, polar)
            fig = pl.gcf()
            return types.SimpleNamespace(fig=fig, ax=fig.axes[0])
        c = sc.SolarChart(lat, lon, when, zone, polar)
        c.draw_solar_grid(**grid)
        return c
    try:
        c = ctx.guarded(key + '/draw', draw)
        if c is None:
            return
        axes(ctx, key, case, c, polar)
        check(ctx, key, case, *read(c.ax, polar), lat, lon, zone, when, polar, grid or {}, grid is None)
    finally:
        pl.close('all')


def axes(ctx, key, case, c, polar):
    """the compass points and the numbers along the axes stand where the sun of those azimuths and elevations is drawn"""
    ax = c.ax
    c.fig.canvas.draw()
    place = lambda az, el: ax.transAxes.inverted().transform(ax.transData.transform((np.radians(az) if polar else az, el)))    # noqa: E731
    for tx in ax.texts:
        t = tx.get_text().lower()
        az = {'s': 0, 'e': -90, 'w': 90, 'n': 180}.get(t[:1]) if t in ('s', 'e', 'w', 'n', 'south', 'east', 'west', 'north') else None
        if az is None:
            continue
        at = np.asarray(ax.transAxes.inverted().transform(tx.get_transform().transform(tx.get_position())))
        near = [np.hypot(*(place(a, .2) - at)*((1, 1) if polar else (1, 0))) for a in ((az,) if az < 180 else (180, -180))]
        if min(near) > .12:
            ctx.fail(key + f'/compass/{t}', f'{case}: {tx.get_text()} stands at {at} of the axes, the sun of azimuth {az} at {place(az, .2)}')
    for axis, name in ((ax.xaxis, 'azimuth'), (ax.yaxis, 'elevation')):
        for tick, label in zip(axis.get_majorticklocs(), axis.get_majorticklabels()):
            m = re.match(r'\$?([-\u2212]?\d+)', label.get_text())
            if m is None:
                continue
            v = np.degrees(tick) if polar and name == 'azimuth' else tick
            if abs((v - float(m[1].replace('\u2212', '-')) + 180) % 360 - 180) > .51:
                ctx.fail(key + f'/tick/{name}', f'{case}: the {name} {label.get_text()} stands at {v}')
    for az, el in itertools.product(range(-175, 180, 25), (.5, 45, 89)):
        if not (np.abs(place(az, el) - .5) <= .5).all():
            ctx.fail(key + '/view', f'{case}: the sun of azimuth {az} and elevation {el} is out of the chart')
    if not polar and ((place(0, -1) >= 0).all() or place(0, 30)[1] <= place(0, 20)[1]):
        ctx.fail(key + '/view', f'{case}: the chart is not bounded by the horizon')
    if polar:
        r = [np.hypot(*(place(40, e) - .5)) for e in (1, 30, 60, 89)]
        if not (np.diff(r) < 0).all() or r[0] > .51 or r[-1] > .02:
            ctx.fail(key + '/view', f'{case}: elevations 1, 30, 60, 89 are drawn {r} from the centre')


def check(ctx, key, case, lines, texts, lat, lon, zone, when, polar, grid, with_path):
    sky = Sky(lat, lon)
    ts = pd.Timestamp(when).tz_localize(zone) if when is not None else pd.Timestamp.now(tz=zone)
    y = ts.year
    expect = []
    hm = list(itertools.product(grid.get('hours') or range(24), grid.get('minutes') or (0,)))
    days = list(itertools.product(grid.get('days') or (15,), grid.get('months') or (1, 2, 3, 4, 5, 7, 8, 9, 10, 11)))
    days += [d for d in ((21, 6), (21, 12)) if d not in days]
    expect += [analemma(sky, zone, y, h, m) for h, m in hm]
    paths = {(d, m): day_path(sky, zone, y, m, d) for d, m in days}
    expect += list(paths.values())
    optional = []
    if with_path and when is not None:
        u = ts.tz_convert('UTC').to_pydatetime()
        expect.append(day_path(sky, zone, y, ts.month, ts.day))
        optional.append(utc_analemma(sky, u))
        expect.append(Path('the requested time', sky, [[u]]))
    free = list(range(len(lines)))
    for e in expect:
        ok = [i for i in range(len(lines)) if e.matches(*lines[i])]
        if not ok:
            ctx.fail(key + '/line/' + e.label.split(' in ')[0], f'{case}: no line shows the {e.label}', '')
        free = [i for i in free if i not in ok]
    for i in free:
        if not any(o.matches(*lines[i]) for o in optional):
            ctx.fail(key + '/extra', f'{case}: line {i} ({len(lines[i][0])} points, first {lines[i][0][:2]}, {lines[i][1][:2]}) is not a path of the sun the chart should show')
    if with_path and when is not None and not any(optional[0].matches(*ln) and len(ln[0]) > 300 for ln in lines):
        ctx.fail(key + '/user-analemma', f'{case}: no analemma of the requested time')
    # labels
    seen = {}
    for text, data, x, v in texts:
        if not data:
            continue
        m = re.match(r'(\d+)(?::(\d+))? (\S+)$', text)
        if m:
            h, mi = int(m[1]), int(m[2] or 0)
            u = instants(zone, y, 6, 21, h, mi)
            az, el = sky.at(u)
            if (h, mi) not in hm or not any(abs((x - a + 180) % 360 - 180) <= 1.6 and -.1 <= v - e <= 1.1 for a, e in zip(az, el)):
                ctx.fail(key + f'/label/{text}', f'{case}: label {text} stands at azimuth {x:.3f}, elevation {v:.3f}; the sun is at {az}, {el} on 21 June')
            if m[2] and len(m[2]) != 2:
                ctx.fail(key + f'/label/{text}', f'{case}: label {text} of {h}:{mi:02d}')
            seen[h, mi] = 1
            continue
        m = re.match(r'(\d\d)/(\d\d)$', text)
        if not m:
            continue
        d, mo = int(m[1]), int(m[2])
        p = paths.get((d, mo))
        ref = None
        if p is not None:
            ref = pd.Series(np.asarray(p.el), np.degrees(np.arctan2(p.v[:, 1], p.v[:, 0]))).sort_index()
            near = np.interp([x - .5, x, x + .5], ref.index, ref.values, period=360)
        # where the sun culminates overhead the azimuth says little
        if p is None or (abs(lat) >= 24 and abs(v - near[1]) > np.ptp(near) + .3):
            ctx.fail(key + f'/label/{text}', f'{case}: label {text} stands at azimuth {x:.3f}, elevation {v:.3f}, ' + ('no such day' if p is None else f'but the sun at {near[1]:.3f}'))
        seen[d, mo, 'day'] = 1
    for h, mi in hm:
        u = instants(zone, y, 6, 21, h, mi)
        up = u and sky.at(u)[1]
        if u and (np.asarray(up) > 1e-6).all() != ((h, mi) in seen) and abs(np.asarray(up)).min() > 1e-6:
            ctx.fail(key + f'/label/{h}:{mi}', f'{case}: label of {h}:{mi:02d} is {"missing" if (h, mi) not in seen else "there"} with the sun at {up} on 21 June')
    for d, mo in days:
        if (d, mo, 'day') not in seen:
            ctx.fail(key + f'/label/{d}/{mo}', f'{case}: no label of day {d:02d}/{mo:02d}')
    whole = ' '.join(t for t, *_ in texts)
    if with_path and when is not None and f'{ts:%Y-%m-%d %H:%M}' not in whole:
        ctx.fail(key + '/user', f'{case}: the chart does not show the requested time: {whole[-300:]}')
    for want in (f'{lat:.2f}', f'{lon:.2f}'):
        if want not in whole:
            ctx.fail(key + '/place', f'{case}: the chart does not show the coordinate {want}: {whole[-300:]}')
    ctx.cover(states=sum(len(a) for a, _ in lines), transitions=len(expect), traces=1, charts=1, labels=len(seen))
    ctx.sample(dict(chart=key, lines=len(lines), labels=len(seen)), limit=3)


def saved(ctx, polar, transparent):
    import matplotlib
    matplotlib.use('Agg')
    logging.getLogger('matplotlib').setLevel(logging.CRITICAL)
    import pylab as pl
    from sunwhere._cli import solar_chart as sc
    for when, name in itertools.product(('2024-05-01 12:30', None), ('a.png', 'b.pdf')):
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, name)
            key = f'saved/{polar}/{transparent}/{when}/{name}'
            ctx.guarded(key, sc.make_solar_chart, 36.9, -3.8, when, 'Europe/Madrid', polar, transparent, f)
            if not (os.path.exists(f) and os.path.getsize(f) > 1000) or os.listdir(d) != [name]:
                ctx.fail(key, f'the chart is not saved in {name}: {os.listdir(d)}')
            pl.close('all')
            ctx.cover(states=1, transitions=1, traces=1)


def task(ctx, what, *args):
    dict(chart=chart, saved=saved)[what](ctx, *args)


def run(ctx):
    th = ctx.thorough
    places = [(36.949, -3.822), (-33.92, 18.42), (0., 179.5), (68.3, -133.), (-77.85, 166.67), (52.5, -180.)]
    zones = ['UTC', 'Europe/Madrid', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata', 'Pacific/Auckland', 'America/St_Johns', 'Asia/Kathmandu',
             'Pacific/Kiritimati', 'America/Sao_Paulo']
    whens = ['2024-05-01 12:30', '2023-01-01 00:10:30', '2024-12-31 23:50', None]
    if th:
        places += [(89., 10.), (-89., 10.), (23.5, 100.), (60., 25.)]
        zones += ['Africa/Casablanca', 'Antarctica/Troll', 'Asia/Tehran', 'America/Phoenix', 'Europe/Dublin', 'Asia/Beirut']
        whens += ['1985-04-28 07:00', '2018-11-03 23:59', '2000-02-29 06:15', '2037-06-21 12:00']
    grids = [dict(days=(1, 5, 12), months=(2, 3, 11)), dict(hours=(0, 6, 12, 18), minutes=(0, 5, 20)), dict(days=(28,), months=(1, 6, 12), hours=(9,)),
             dict(include_solstice=False), dict(include_equinox=False), dict(include_solstice=False, include_equinox=False)]
    tasks = []
    for i, (p, z) in enumerate(itertools.product(places, zones)):
        for k, w in enumerate(whens):
            for polar in (True, False):
                # quick: every (place, zone), (zone, time), (place, time) and both projections of each (zone, time)
                if th or ((i + k) % 4 == 0) or (p == places[0] and k == 0):
                    tasks.append(('chart', *p, z, w, polar, None))
    for g, z, polar in itertools.product(grids, zones if th else zones[1:5], (True, False)):
        for p in (places if th else places[:1]):
            tasks.append(('chart', *p, z, whens[0], polar, g))
    for polar, tr in itertools.product((True, False), repeat=2):
        tasks.append(('saved', polar, tr))
    ctx.pmap('checks.c29', tasks)
    ctx.assume('matplotlib draws the lines and texts it is given')
