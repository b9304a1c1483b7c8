"""Reference models, written from the publications and independent of /repo's code.

All functions take unix seconds (float array, shape (T,)) and return numpy arrays.
  ephem(alg, t)            -> dict(dec [deg], eot [min], ecf, ha0 [deg]: Greenwich hour angle)
  position(alg, t, lat, lon, ref) -> (zenith, azimuth) in degrees for broadcastable arrays
"""
import numpy as np
from pvlib import spa

D = np.pi/180.


def unix(times):
    return np.asarray(times).astype('datetime64[s]').astype('int64').astype('float64')


# ---------------------------------------------------------------- SPA (Reda & Andreas 2003)

SPA_P, SPA_T, SPA_DT = 1013.25, 12., 67.


def spa_ephem(t):
    t = np.asarray(t, float)
    jd = spa.julian_day(t)
    jde = spa.julian_ephemeris_day(jd, SPA_DT)
    jc = spa.julian_century(jd)
    jce = spa.julian_ephemeris_century(jde)
    jme = spa.julian_ephemeris_millennium(jce)
    R = spa.heliocentric_radius_vector(jme)
    L = spa.heliocentric_longitude(jme)
    B = spa.heliocentric_latitude(jme)
    Theta = spa.geocentric_longitude(L)
    beta = spa.geocentric_latitude(B)
    x0 = spa.mean_elongation(jce)
    x1 = spa.mean_anomaly_sun(jce)
    x2 = spa.mean_anomaly_moon(jce)
    x3 = spa.moon_argument_latitude(jce)
    x4 = spa.moon_ascending_longitude(jce)
    lo = np.empty((2, len(jce)))
    spa.longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4, lo)
    dpsi, deps = lo[0], lo[1]
    eps0 = spa.mean_ecliptic_obliquity(jme)
    eps = spa.true_ecliptic_obliquity(eps0, deps)
    dtau = spa.aberration_correction(R)
    lamd = spa.apparent_sun_longitude(Theta, dpsi, dtau)
    v0 = spa.mean_sidereal_time(jd, jc)
    v = spa.apparent_sidereal_time(v0, dpsi, eps)
    alpha = spa.geocentric_sun_right_ascension(lamd, eps, beta)
    delta = spa.geocentric_sun_declination(lamd, eps, beta)
    m = spa.sun_mean_longitude(jme)
    eot = spa.equation_of_time(m, alpha, dpsi, eps)
    return dict(dec=delta, eot=eot, ecf=1/R**2, R=R, ra=alpha, sid=v)


def spa_refraction(e):
    de = (SPA_P/1010.)*(283./(273. + SPA_T))*1.02/(60*np.tan((e + 10.3/(e + 5.11))*D))
    return e + np.where(e >= -(0.26667 + 0.5667), de, 0.)


def spa_position(t, lat, lon, ref, eph=None):
    """t (T,); lat, lon broadcastable against (T, 1)"""
    q = eph or spa_ephem(t)
    sh = lambda a: a.reshape((-1,) + (1,)*(np.ndim(lat) - 1)) if np.ndim(lat) > 1 else a  # noqa: E731
    R, ra, dec, v = sh(q['R']), sh(q['ra']), sh(q['dec'])*D, sh(q['sid'])
    H = (v + lon - ra)*D
    phi = lat*D
    xi = 8.794/(3600*R)*D
    u = np.arctan(0.99664719*np.tan(phi))
    x, y = np.cos(u), 0.99664719*np.sin(u)
    dra = np.arctan2(-x*np.sin(xi)*np.sin(H), np.cos(dec) - x*np.sin(xi)*np.cos(H))
    decp = np.arctan2((np.sin(dec) - y*np.sin(xi))*np.cos(dra), np.cos(dec) - x*np.sin(xi)*np.cos(H))
    Hp = H - dra
    zen, azi = horizontal(phi, decp, Hp)
    if ref:
        zen = 90 - spa_refraction(90 - zen)
    return zen, azi


# ---------------------------------------------------------------- spherical triangle

def horizontal(phi, dec, ha):
    """zenith and azimuth (degrees, zero south, positive west) through unit vectors: accurate everywhere"""
    x = np.cos(dec)*np.cos(ha)*np.sin(phi) - np.sin(dec)*np.cos(phi)      # towards south
    y = np.cos(dec)*np.sin(ha)                                            # towards west
    z = np.cos(dec)*np.cos(ha)*np.cos(phi) + np.sin(dec)*np.sin(phi)
    return np.degrees(np.arctan2(np.hypot(x, y), z)), np.degrees(np.arctan2(y, x))


# ---------------------------------------------------------------- PSA+ (Blanco et al. 2020)

def kepler_ecf(d):
    """van der Sluys and van Kan (2022), Eqs 3, 4, 8-10"""
    T = d/36525
    M = 6.240060141 + 628.301955152*T - 2.682571e-6*T**2
    C = (3.34161088e-2 - 8.40725e-5*T - 2.443e-7*T**2)*np.sin(M) + (3.489437e-4 - 1.76278e-6*T)*np.sin(2*M)
    e = 0.016708634 - 0.000042037*T - 0.0000001267*T**2
    R = 1.0000010178*(1 - e*e)/(1 + e*np.cos(M + C))
    return 1/R**2, R, M, C


def wrap_eot(deg):
    """degrees -> minutes in [-720, 720)"""
    return 4*((deg + 180) % 360 - 180)


def psa_ephem(t):
    n = t/86400 - 10957.5
    om = 2.267127827 - 9.300339267e-4*n
    L = 4.895036035 + 1.720279602e-2*n
    g = 6.239468336 + 1.720200135e-2*n
    lam = L + 3.338320972e-2*np.sin(g) + 3.497596876e-4*np.sin(2*g) - 1.544353226e-4 - 8.689729360e-6*np.sin(om)
    eps = 4.090904909e-1 - 6.213605399e-9*n + 4.418094944e-5*np.cos(om)
    ra = np.arctan2(np.cos(eps)*np.sin(lam), np.cos(lam))
    dec = np.arcsin(np.sin(eps)*np.sin(lam))
    hour = (t % 86400)/3600
    gmst = 6.697096103 + 6.570984737e-2*n + hour
    return dict(dec=dec/D, eot=wrap_eot((L - ra)/D), ecf=kepler_ecf(n)[0], gha=gmst*15 - ra/D)


def soltrack_ephem(t):
    n = t/86400 - 10957.5
    T = n/36525
    ecf, R, M, C = kepler_ecf(n)
    l0 = 4.895063168 + 628.331966786*T + 5.291838e-6*T**2
    om = 2.1824390725 - 33.7570464271*T + 3.622256e-5*T**2
    dpsi = -8.338601e-5*np.sin(om)
    lam = l0 + C - 9.93087e-5/R + dpsi
    eps = 0.409092804222 - 2.26965525e-4*T - 2.86e-9*T**2 + 4.4615e-5*np.cos(om)
    ra = np.arctan2(np.cos(eps)*np.sin(lam), np.cos(lam))
    dec = np.arcsin(np.sin(eps)*np.sin(lam))
    gst = 4.89496121 + 6.300388098985*n + 6.77e-6*T**2 + dpsi*np.cos(eps)
    return dict(dec=dec/D, eot=wrap_eot((l0 - ra + dpsi*np.cos(eps))/D - 0.0057183), ecf=ecf, gha=(gst - ra)/D)


def iqbal_ephem(t):
    s = np.asarray(t).astype('int64').astype('datetime64[s]')
    y0 = s.astype('M8[Y]').astype('M8[s]')
    doy = 1 + (s - y0).astype('int64')/86400.           # 1 at 1st January 00:00
    g = 2*np.pi*doy/365
    c, si = np.cos, np.sin
    ecf = (1.00012825 + 3.33572253e-2*c(g) + 1.99417932e-3*si(g) + 6.97434604e-4*c(2*g) + 1.14828177e-4*si(2*g)
           + 1.74028675e-5*c(3*g) + 1.13778023e-5*si(3*g))
    eot = (0.00986571 + 0.58688718*c(g) - 7.34538133*si(g) - 3.31493999*c(2*g) - 9.35366541*si(2*g)
           - 0.0815175*c(3*g) - 0.30892409*si(3*g) - 0.13532889*c(4*g) - 0.1733622*si(4*g))
    dec = (0.006918 - 0.399912*c(g) + 0.070257*si(g) - 0.006758*c(2*g) + 0.000907*si(2*g)
           - 0.002697*c(3*g) + 0.001480*si(3*g))
    hour = (np.asarray(t) % 86400)/3600
    return dict(dec=dec/D, eot=eot, ecf=ecf, gha=(hour - 12)*15 + eot/4)


EPHEM = dict(nrel=spa_ephem, psa=psa_ephem, soltrack=soltrack_ephem, iqbal=iqbal_ephem)


def position(alg, t, lat, lon, ref, eph=None):
    """lat, lon: shape (1, ...) broadcast against t (T,) expanded, or shape (T,)"""
    lat, lon = np.asarray(lat, float), np.asarray(lon, float)
    if alg == 'nrel':
        return spa_position(t, lat, lon, ref, eph)
    q = eph or EPHEM[alg](np.asarray(t, float))
    sh = lambda a: a.reshape((-1,) + (1,)*(lat.ndim - 1)) if lat.ndim > 1 else a  # noqa: E731
    zen, azi = horizontal(lat*D, sh(q['dec'])*D, (sh(q['gha']) + lon)*D)
    if alg == 'psa':      # parallax, earth mean radius / astronomical unit
        zen = zen + 0.000042587565907513806/D*np.sin(zen*D)
    if alg == 'soltrack':
        zen = zen + 4.2635e-5/D*np.sin(zen*D)
    if ref:
        zen = REFR[alg](zen)
    return zen, azi


CUT = -1.4545e-2   # rad, cut-off elevation shared by all of them


def psa_refr(zen):
    e = (90 - zen)*D
    return 90 - (e + np.where(e >= CUT, 1.7802e-2/(60*np.tan(e + 3.1376e-3/(e + 8.9186e-2))), 0.))/D


def soltrack_refr(zen):
    e = (90 - zen)*D
    return 90 - (e + np.where(e >= CUT, 2.967e-4/np.tan(e + 3.1376e-3/(e + 8.92e-2)), 0.))/D


def iqbal_refr(zen):
    e = (90 - zen)*D
    r = 0.061359*(0.1594 + 1.1230*e + 0.065656*e**2)/(1 + 28.9344*e + 277.3971*e**2)
    return np.maximum(0., 90 - (e + np.where(e >= CUT, r, 0.))/D)


REFR = dict(psa=psa_refr, soltrack=soltrack_refr, iqbal=iqbal_refr)


def nan_at_cut(alg_zen_airless, width=1e-4):
    """cells so close to the refraction cut-off that rounding decides the side (excluded from comparisons)"""
    return np.abs((90 - alg_zen_airless)*D - CUT) < width*D


# ---------------------------------------------------------------- derived quantities

def airmass(name, zen):
    cosz = np.cos(zen*D)
    a, c, lim, p = {
        'kasten_1965': (0.15, 0., 93.885, -1.253),
        'kasten_and_young_1989': (0.50572, 0., 96.07995, -1.6364),
        'gueymard_2001': (0.45665, 0.07, 96.4836, -1.697),
        'gueymard_2003': (0.48353, 0.095846, 96.741, -1.754)}[name]
    day = zen <= 90
    z = np.where(day, zen, 0.)
    f = np.where(z > 0, z, 0.)**c if c else 1.
    am = 1/(np.cos(z*D) + a*f*(lim - z)**p)
    del cosz
    return np.where(day, np.maximum(1., am), np.nan)


def eth(ecf, zen, isc=1361.1, corr='none'):
    base = isc*ecf*np.maximum(0., np.cos(zen*D))
    if corr == 'none':
        return base
    if corr == 'perez_1990':
        return base*(0.1 + 1.031*np.exp(-1.4/(0.9 + 9.4/airmass('kasten_and_young_1989', zen))))
    if corr == 'skarveith_1998':
        return base*(0.83 - 0.56*np.exp(-0.06*(90 - zen)))
    if corr == 'gonzalez_and_calbo_1999':
        am = airmass('gueymard_2003', zen)
        return base*(0.229 + 0.957*np.exp(-1.74*am*(0.124 - 0.0285*np.log(am))))
    raise KeyError(corr)
