"""Finite alphabets of instants and locations that the explorers enumerate."""
import numpy as np


def dt(*texts):
    return np.array(texts, dtype='datetime64[s]')


EDGE = dt(
    '1950-01-01T00:00:00', '1952-02-29T12:34:56', '1959-12-31T23:59:59', '1968-12-31T12:00:00',
    '1969-12-31T23:59:59', '1970-01-01T00:00:00', '1970-01-01T00:00:01', '1972-02-29T23:59:59',
    '1999-12-31T23:59:59', '2000-01-01T00:00:00', '2000-01-01T11:58:56', '2000-01-01T12:00:00',
    '2000-02-28T23:59:59', '2000-02-29T00:00:00', '2000-02-29T18:30:15', '2000-03-01T00:00:00',
    '2000-12-31T06:00:00', '2001-01-01T00:00:00', '2019-03-20T21:58:00', '2020-02-29T03:21:00',
    '2023-02-28T23:59:59', '2023-03-01T00:00:00', '2023-12-31T23:59:59', '2024-01-01T00:00:00',
    '2024-02-29T06:07:08', '2024-03-20T03:06:00', '2024-04-15T09:00:00', '2024-05-31T14:22:33',
    '2024-06-13T12:00:00', '2024-06-20T20:51:00', '2024-07-31T23:00:01', '2024-08-17T17:17:17',
    '2024-09-01T12:00:00', '2024-09-22T12:44:00', '2024-10-31T01:30:00', '2024-11-30T20:00:00',
    '2024-12-21T09:20:00', '2024-12-25T12:00:00', '2024-12-31T18:45:00', '2024-12-31T23:59:59',
    '2025-01-01T00:00:00', '2038-01-19T03:14:08', '2050-07-04T16:00:00', '2099-12-31T23:59:59',
    '2100-02-28T12:00:00', '2100-03-01T00:00:00')

LATS = np.array([-90., -89.999, -66.6, -45.3, -23.44, -0.001, 0., 10.123, 23.44, 36.949, 51.5, 66.56, 78.2, 90.])
LONS = np.array([-180., -179.99, -122.4, -90., -3.822, -1e-6, 0., 0.01, 12.5, 90., 139.7, 179.999])

LATS_S = np.array([-90., -33.9, 0., 36.949, 66.56, 90.])
LONS_S = np.array([-180., -74., 0., 12.5, 179.5])

# every half degree of latitude and 1.5 degrees of longitude, at irregular offsets
DENSE_LATS = np.round(np.concatenate([[-90.], np.arange(-90, 90, 0.5) + 0.02 + (np.arange(360)*0.618034 % 1)*0.45, [90.]]), 4)
DENSE_LONS = np.round(np.arange(-180, 180, 1.5) + (np.arange(240)*0.618034 % 1)*1.45, 4)


def small(step=1):
    """requests of one or two entries: (use case, times, latitudes, longitudes)"""
    for i in range(0, len(EDGE), step):
        t, y, x = EDGE[i:i+2], LATS[[i % 14, (i*3 + 1) % 14]], LONS[[i % 12, (i*5 + 2) % 12]]
        for uc in ("sites", "regular_grid", "transect"):
            yield uc, t[:1], y[:1], x[:1]
        if len(t) == 2:
            yield "transect", t, y, x
            yield "sites", t, y[1:], x[1:]
            yield "regular_grid", t[1:], y, x[:1]
            yield "regular_grid", t[1:], y[:1], x
            yield "sites", t[1:], y, x


def product(lats, lons):
    a, b = np.meshgrid(lats, lons, indexing='ij')
    return a.ravel(), b.ravel()


def daterange(start, stop, step, unit='s'):
    """inclusive start, exclusive stop; step in `unit`"""
    return np.arange(np.datetime64(start, 's'), np.datetime64(stop, 's'),
                     np.timedelta64(step, unit).astype('timedelta64[s]')).astype('datetime64[s]')


def edge_days(years):
    """first/last days of months, leap days, of the given years (midnights)"""
    out = []
    for y in years:
        for m in range(1, 13):
            a = np.datetime64(f'{y:04d}-{m:02d}', 'M') if y > 0 else np.datetime64(y - 1970, 'Y').astype('M8[M]') + (m - 1)
            out += [a.astype('M8[D]'), (a + 1).astype('M8[D]') - 1]
    return np.array(out).astype('datetime64[s]')


def year_start(y):
    return (np.datetime64('1970', 'Y') + (y - 1970)).astype('datetime64[s]')
