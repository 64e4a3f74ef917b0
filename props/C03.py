"""Star formation and enrichment after the time of observation have no effect"""
from functools import partial
from .common import *
from dsps.sed import (calc_rest_sed_sfh_table_lognormal_mdf, calc_rest_sed_sfh_table_met_table,
                      calc_lgmet_weights_from_lgmet_table, calc_age_weights_from_sfh_table)

LGMET = jnp.array([-3.0, -2.0, -1.5])


def both(t, lga, tobs, k):
    """two histories that agree on every table entry up to (and including) index k, the first
    one at or after the time of observation"""
    t, lga = jnp.array(t), jnp.array(lga)
    nt, na = len(t), len(lga)
    flux = jnp.array(1.0 + np.arange(3 * na * 2).reshape(3, na, 2) % 7)

    def fn(sfr, late, z, zlate, tobs=tobs):
        j = jnp.arange(nt)
        s1, s2 = sfr, jnp.where(j > k, late, sfr)
        z1, z2 = z, jnp.where(j > k, zlate, z)
        wa, wb = [calc_age_weights_from_sfh_table(t, s, lga, tobs) for s in (s1, s2)]
        ma, mb = [calc_lgmet_weights_from_lgmet_table(t, q, 0.2, LGMET, lga, tobs) for q in (z1, z2)]
        a = calc_rest_sed_sfh_table_lognormal_mdf(t, s1, -2.0, 0.3, LGMET, lga, flux, tobs)
        b = calc_rest_sed_sfh_table_lognormal_mdf(t, s2, -2.0, 0.3, LGMET, lga, flux, tobs)
        c = calc_rest_sed_sfh_table_met_table(t, s1, z1, 0.2, LGMET, lga, flux, tobs)
        d = calc_rest_sed_sfh_table_met_table(t, s2, z2, 0.2, LGMET, lga, flux, tobs)
        return out(goal=dict(age=near(wa, wb, 1e-10), lgmet=near(ma, mb, 1e-10),
                             sed=near(a.rest_sed, b.rest_sed, 1.0), sed_met=near(c.rest_sed, d.rest_sed, 1.0)))
    return fn


def harnesses(tier):
    def inp(nt, **kw):
        return dict(sfr=Box(0, 1e5, (nt,)), late=Box(0, 1e5, (nt,)), z=Box(-6, 1, (nt,)), zlate=Box(-6, 1, (nt,)), **kw)
    return [partial(H, undef_ok=True)("mid10", inp(10), both(T10, LGA20[::3], 7.0, 5), note="t_obs strictly between two table entries"),
            partial(H, undef_ok=True)("knot10", inp(10), both(T10, LGA20[::3], 6.5, 4), note="t_obs equal to a table entry"),
            partial(H, undef_ok=True)("early10", inp(10), both(T10, LGA20[::3], 1.25, 1)),
            partial(H, undef_ok=True)("free6", inp(6, tobs=Box(5.25, 8.25)), both(0.5 + 2.5 * np.arange(6), LGA5, None, 4),
              note="t_obs symbolic over a range holding three table cells boundaries")]
