"""Independent sky transformation: astropy's Galactocentric <-> ICRS, mapped to galpy's left-handed frame."""
import numpy as np


def _frame(P):
    import astropy.units as u
    from astropy.coordinates import Galactocentric, CartesianDifferential
    sm = P["sm"]
    return Galactocentric(galcen_distance=np.sqrt(P["ro"] ** 2 + P["zo"] ** 2) * u.kpc, z_sun=P["zo"] * u.kpc,
                          galcen_v_sun=CartesianDifferential([-sm[0], P["vo"] + sm[1], sm[2]] * u.km / u.s),
                          roll=0 * u.deg)


def to_sky(x, y, z, vx, vy, vz, P):
    """kpc, km/s Galactocentric (galpy axes) -> ra, dec [deg], dist [kpc], pmra*, pmdec [mas/yr], vlos [km/s]."""
    import astropy.units as u
    from astropy.coordinates import SkyCoord, ICRS
    x, y, z, vx, vy, vz = [np.atleast_1d(np.asarray(a, float)) for a in (x, y, z, vx, vy, vz)]
    fr = _frame(P)
    c = SkyCoord(x=-x * u.kpc, y=y * u.kpc, z=z * u.kpc, v_x=-vx * u.km / u.s, v_y=vy * u.km / u.s,
                 v_z=vz * u.km / u.s, frame=fr).transform_to(ICRS())
    return [np.array(a) for a in (c.ra.deg, c.dec.deg, c.distance.kpc, c.pm_ra_cosdec.to_value(u.mas / u.yr),
                                  c.pm_dec.to_value(u.mas / u.yr), c.radial_velocity.to_value(u.km / u.s))]


def from_sky(ra, dec, dist, pmra, pmdec, vlos, P):
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    a = [np.atleast_1d(np.asarray(v, float)) for v in (ra, dec, dist, pmra, pmdec, vlos)]
    c = SkyCoord(ra=a[0] * u.deg, dec=a[1] * u.deg, distance=a[2] * u.kpc, pm_ra_cosdec=a[3] * u.mas / u.yr,
                 pm_dec=a[4] * u.mas / u.yr, radial_velocity=a[5] * u.km / u.s, frame="icrs").transform_to(_frame(P))
    p, v = c.cartesian.xyz.to_value(u.kpc), c.velocity.d_xyz.to_value(u.km / u.s)
    return [-p[0], p[1], p[2], -v[0], v[1], v[2]]
