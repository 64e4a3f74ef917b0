"""SSP weights are a joint age-metallicity distribution with the right marginals"""
from .common import *
import dsps.sed.ssp_weights as M
import dsps.sed.metallicity_weights as MZ
from dsps.sed import (calc_ssp_weights_sfh_table_lognormal_mdf, calc_ssp_weights_sfh_table_met_table,
                      calc_age_weights_from_sfh_table, calc_lgmet_weights_from_lognormal_mdf,
                      calc_lgmet_weights_from_lgmet_table)

CUT = cut_calls((M, "calc_age_weights_from_sfh_table", "age"), (M, "calc_lgmet_weights_from_lognormal_mdf", "lgmet"),
                (M, "calc_lgmet_weights_from_lgmet_table", "lgmet"),
                (MZ, "_calc_lgmet_at_ssp_lgage_table", "zbirth"))
LGMET = jnp.array([-3.0, -2.0, -1.5])


def lognorm(t, lga, tobs=None):
    t, lga = jnp.array(t), jnp.array(lga)
    nz, na = len(LGMET), len(lga)

    def fn(sfr, x, sig, tobs=tobs):
        r = calc_ssp_weights_sfh_table_lognormal_mdf(t, sfr, x, sig, LGMET, lga, tobs)
        wa = cut(calc_age_weights_from_sfh_table(t, sfr, lga, tobs), "age")
        wz = cut(calc_lgmet_weights_from_lognormal_mdf(x, sig, LGMET), "lgmet")
        w = r.weights
        return out(goal=dict(shape=jnp.array(w.shape == (nz, na) and r.lgmet_weights.shape == (nz,)
                                             and r.age_weights.shape == (na,)),
                             age=near(r.age_weights, wa, 1e-10), lgmet=near(r.lgmet_weights, wz, 1e-10),
                             wa_nonneg=wa >= -1e-13, wa_sum=near(wa.sum(), 1.0, 1e-11), wa_le1=wa <= 1.0 + 1e-9,
                             wz_nonneg=wz >= -1e-13, wz_sum=near(wz.sum(), 1.0, 1e-11),
                             age_marginal=near(w.sum(axis=0), wa, 1e-8), lgmet_marginal=near(w.sum(axis=1), wz, 1e-8),
                             sum1=near(w.sum(), 1.0, 1e-8), product=near(w, wz[:, None] * wa[None, :] / (wz[:, None] * wa[None, :]).sum(), 1e-9),
                             nonneg=w >= -1e-12),
                   obs=dict(w=w))
    return fn


def mettab(t, lga, tobs=None, lgmet=LGMET, marginal=True):
    t, lga = jnp.array(t), jnp.array(lga)
    nz, na = len(lgmet), len(lga)

    def fn(sfr, z, sig, tobs=tobs):
        r = calc_ssp_weights_sfh_table_met_table(t, sfr, z, sig, lgmet, lga, tobs)
        wa = cut(calc_age_weights_from_sfh_table(t, sfr, lga, tobs), "age")
        wz = cut(calc_lgmet_weights_from_lgmet_table(t, z, sig, lgmet, lga, tobs), "lgmet")
        w = r.weights
        p = wz * wa[None, :]
        P, S = cut(p.sum(axis=0), "P"), cut(p.sum(), "S")
        W = P / S  # = w.sum(axis=0), see goal product
        goal = dict(shape=jnp.array(w.shape == (nz, na) and r.lgmet_weights.shape == (nz, na)
                                             and r.age_weights.shape == (na,)),
                             age=near(r.age_weights, wa, 1e-10), lgmet=near(r.lgmet_weights, wz, 1e-10),
                             wa_nonneg=wa >= -1e-13, wa_sum=near(wa.sum(), 1.0, 1e-11), wa_le1=wa <= 1.0 + 1e-9,
                             column=near(wz.sum(axis=0) * na, 1.0, 1e-11), wz_nonneg=wz >= -1e-13,
                             l1=near(P * na, wa, 1e-10), l2=near(S, P.sum(), 1e-11), l2b=near(S * na, 1.0, 1e-8),
                             age_marginal=near(W, wa, 1e-7), nonneg=p >= -1e-12, norm=S * na >= 0.5,
                             product=near(w, wz * wa[None, :] / (wz * wa[None, :]).sum(), 1e-9))
        if not marginal:   # implied by the other goals
            for k in ("age_marginal",):
                goal.pop(k)
        return out(goal=goal, obs=dict(w=w))
    return fn


def harnesses(tier):
    S = dict(x=Box(-7, 7), sig=Box(0.01, 2))
    return [H("lognormal10", dict(sfr=Box(0, 1e5, (10,)), **S), lognorm(T10, LGA20[::3], 13.0), patches=CUT),
            H("lognormal5", dict(sfr=Box(0, 1e5, (5,)), **S, tobs=Box(1, 13.8)),
              lognorm(0.5 + 3.5 * np.arange(5), -3 + 1.5 * np.arange(4)), patches=CUT),
            H("met10", dict(sfr=Box(0, 1e5, (10,)), z=Box(-6, 1, (10,)), sig=Box(0.01, 2)), mettab(T10, LGA20[::4], 13.0, marginal=False), patches=CUT),
            H("met5", dict(sfr=Box(0, 1e5, (5,)), z=Box(-6, 1, (5,)), sig=Box(0.01, 2), tobs=Box(1, 13.8)),
              mettab(0.5 + 3.5 * np.arange(5), -3 + 1.5 * np.arange(4)), patches=CUT),
            ]
