"""Driving the implementation through its public API, and comparing arrays."""
import numpy as np
import pandas as pd

import sunwhere

ALGS = ('nrel', 'psa', 'soltrack', 'iqbal')
ENGINES = {'nrel': ('numexpr',), 'psa': ('numpy', 'numexpr'),
           'soltrack': ('numpy', 'numexpr'), 'iqbal': ('numpy', 'numexpr')}
CONFIGS = [(a, e) for a in ALGS for e in ENGINES[a]]
USECASES = ('sites', 'regular_grid', 'transect')
DIMS = {'sites': ('time', 'location'), 'regular_grid': ('time', 'latitude', 'longitude'), 'transect': ('time',)}
AIRMASS = ('kasten_1965', 'kasten_and_young_1989', 'gueymard_2001', 'gueymard_2003')
CORRECTIONS = ('none', 'perez_1990', 'skarveith_1998', 'gonzalez_and_calbo_1999')
UNITS = ('rad', 'deg', 'tst', 'utc', 'local')


class ImplError(Exception):
    """the implementation returned something malformed"""
    from_impl = True


def call(uc, times, lat, lon, alg='psa', eng='numexpr', ref=True):
    return getattr(sunwhere, uc)(times, lat, lon, algorithm=alg, engine=eng, refraction=ref)


def src(x):
    """python source text of an argument"""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'M':
        return f'np.array({[str(v) for v in x.ravel()]}, "{x.dtype}")'
    if isinstance(x, np.ndarray):
        return f'np.array({x.tolist()!r}, "{x.dtype}")'.replace('nan', 'np.nan')
    return repr(x)


def call_src(uc, times, lat, lon, alg='psa', eng='numexpr', ref=True):
    return (f'sunwhere.{uc}({src(times)}, {src(lat)}, {src(lon)}, algorithm={alg!r}, '
            f'engine={eng!r}, refraction={ref!r})')


PRELUDE = 'import numpy as np, pandas as pd, sunwhere\n'


def arr(da, dims=None):
    if dims is not None and tuple(getattr(da, 'dims', ())) != tuple(dims):
        raise ImplError(f'expected dims {dims}, got {getattr(da, "dims", type(da))}')
    return np.asarray(da.values)


def grab(sp, uc):
    """the five computed outputs as numpy arrays (degrees, minutes)"""
    out = {v: arr(getattr(sp, v), DIMS[uc]) for v in ('zenith', 'azimuth')}
    out.update({v: arr(getattr(sp, v), ('time',)) for v in ('declination', 'eot', 'ecf')})
    return out


def run(uc, times, lat, lon, alg='psa', eng='numexpr', ref=True):
    return grab(call(uc, times, lat, lon, alg, eng, ref), uc)


CORE = ('zenith', 'azimuth', 'declination', 'eot', 'ecf')
DERIVED = ([('elevation', lambda s: s.elevation), ('cosz', lambda s: s.cosz), ('sza', lambda s: s.sza),
            ('saa', lambda s: s.saa), ('dec', lambda s: s.dec),
            ('true_solar_time', lambda s: s.true_solar_time)] +
           [(f'sunrise_{u}', lambda s, u=u: s.sunrise(u)) for u in UNITS] +
           [(f'sunset_{u}', lambda s, u=u: s.sunset(u)) for u in UNITS] +
           [('daylight_length', lambda s: s.daylight_length()),
            ('incidence_0_0', lambda s: s.incidence(0, 0)),
            ('incidence_35_-50', lambda s: s.incidence(35., -50.)),
            ('incidence_90_120', lambda s: s.incidence(90., 120.))] +
           [(f'eth_{c}', lambda s, c=c: s.eth(am_correction=c)) for c in CORRECTIONS] +
           [('eth_1000', lambda s: s.eth(ISC=1000.))] +
           [(f'airmass_{p}', lambda s, p=p: s.airmass(p)) for p in AIRMASS])
BASIC = [(v, lambda s, v=v: getattr(s, v)) for v in CORE]
ALL = BASIC + DERIVED


def to_cells(da, uc, nt, nlat, nlon):
    """any output -> array (time, cell); for regular_grid cell = i_lat*nlon + i_lon"""
    dims = tuple(da.dims)
    v = np.asarray(da.values)
    want = dict(time=nt, location=nlat, latitude=nlat, longitude=nlon)
    if v.shape != tuple(want.get(d, n) for d, n in zip(dims, v.shape)):
        raise ImplError(f'{uc} output of shape {v.shape} with dims {dims} for {nt} times, {nlat} latitudes and {nlon} longitudes')
    if uc == 'transect':
        if dims != ('time',):
            raise ImplError(f'transect output with dims {dims}')
        return v
    if uc == 'sites':
        if dims == ('time',):
            return np.broadcast_to(v[:, None], (nt, nlat))
        if dims == ('location',):
            return np.broadcast_to(v[None, :], (nt, nlat))
        if set(dims) != {'time', 'location'}:
            raise ImplError(f'sites output with dims {dims}')
        return da.transpose('time', 'location').values
    sizes = dict(time=nt, latitude=nlat, longitude=nlon)
    if not set(dims) <= set(sizes):
        raise ImplError(f'regular_grid output with dims {dims}')
    order = [d for d in ('time', 'latitude', 'longitude') if d in dims]
    v = da.transpose(*order).values
    v = v.reshape([sizes[d] if d in dims else 1 for d in ('time', 'latitude', 'longitude')])
    return np.broadcast_to(v, (nt, nlat, nlon)).reshape(nt, nlat*nlon)


def tofloat(a):
    """datetimes -> seconds (float), NaT -> NaN"""
    a = np.asarray(a)
    if a.dtype.kind in 'mM':
        f = a.astype(a.dtype.str[:2] + '8[ns]').astype('int64')
        return np.where(np.isnat(a), np.nan, f/1e9)
    return a.astype('float64')


def worst(got, ref, tol):
    """index and description of the worst mismatch, or None; NaN only equals NaN; tol may be an array"""
    got, ref = np.asarray(got), np.asarray(ref)
    if got.dtype.kind in 'mM' and ref.dtype.kind in 'mM':
        nat = np.isnat(got) | np.isnat(ref)
        one = np.isnat(got) != np.isnat(ref)
        g = got.astype(got.dtype.str[:2] + '8[ns]').astype('int64')
        r = ref.astype(ref.dtype.str[:2] + '8[ns]').astype('int64')
        if got.shape != ref.shape:
            return (), f'shape {got.shape} != {ref.shape}', np.inf
        d = np.where(nat, 0., np.abs(g - r)/1e9)
        d = np.where(one, np.inf, d)
    else:
        if got.shape != ref.shape:
            return (), f'shape {got.shape} != {ref.shape}', np.inf
        got, ref = tofloat(got), tofloat(ref)
        with np.errstate(invalid='ignore'):
            d = np.abs(got - ref)
        d = np.where(np.isnan(got) & np.isnan(ref), 0., d)
        d = np.where(got == ref, 0., d)
        d = np.where(np.isnan(got) != np.isnan(ref), np.inf, d)
    if d.size == 0:
        return None
    tol = np.broadcast_to(tol, d.shape)
    k = np.unravel_index(np.argmax(d/tol), d.shape)
    if d[k] > tol[k]:
        return tuple(int(i) for i in k), f'{got[k]!r} vs {ref[k]!r} (difference {d[k]:.4g} > {tol[k]:g})', float(d[k])
    return None


def rounding(zen, tol=1e-7, vertical=1e-5):
    """tolerance (degrees) for rounding in the zenith: arccos amplifies it next to the vertical"""
    with np.errstate(invalid='ignore'):
        return np.where(np.sin(np.radians(zen)) < 1e-4, max(vertical, tol), tol)


def sky(zen, azi):
    """unit vectors (x south, y east->positive west/pm as azimuth, z up), last axis"""
    z, a = np.radians(zen), np.radians(azi)
    return np.stack([np.sin(z)*np.cos(a), np.sin(z)*np.sin(a), np.cos(z)], axis=-1)


def sep(z1, a1, z2, a2):
    """angular separation in degrees, NaN where any is NaN"""
    d = np.linalg.norm(sky(z1, a1) - sky(z2, a2), axis=-1)
    return np.degrees(2*np.arcsin(np.minimum(1., d/2)))


def worst_pair(got, ref, tol_ang=1e-5, tol_time=1e-8):
    """compare two dicts of the five outputs; yields (variable, index, text)"""
    for v in ('declination', 'eot', 'ecf'):
        if v in got and v in ref:
            w = worst(got[v], ref[v], tol_time)
            if w:
                yield v, w[0], w[1]
    w = worst(got['zenith'], ref['zenith'], rounding(ref['zenith'], tol_ang))
    if w:
        yield 'zenith', w[0], w[1]
    if np.shape(got['azimuth']) != np.shape(ref['azimuth']):
        yield 'azimuth', (), f"shape {np.shape(got['azimuth'])} != {np.shape(ref['azimuth'])}"
    elif not w or w[0] != ():
        one = np.isnan(got['azimuth']) != np.isnan(ref['azimuth'])
        # same zenith on both sides, so that only the azimuth is compared
        s = sep(ref['zenith'], got['azimuth'], ref['zenith'], ref['azimuth'])
        s = np.where(np.isnan(s), 0., s)
        s = np.where(one, np.inf, s)
        if s.size:
            k = np.unravel_index(np.argmax(s), s.shape)
            if s[k] > tol_ang:
                yield 'azimuth', tuple(int(i) for i in k), (
                    f"{got['azimuth'][k]!r} vs {ref['azimuth'][k]!r} (zenith {ref['zenith'][k]:.6f}, "
                    f"{s[k]:.4g} degrees of arc apart)")


def secs(x):
    return np.array(x, dtype='datetime64[s]')


def utc_index(t):
    return pd.DatetimeIndex(t)
