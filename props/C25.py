"""Planck's law; both densities are shown equal to their closed forms, whose ratio is the Jacobian c/lambda^2 identically"""
from .common import *
from dsps.dust import blackbody as BB

HP, KB, C, LS = 6.62607015e-34, 1.380649e-23, 299792458.0, 3.828e26


def freq(lnu, T):
    """frequencies nu = exp(lnu) so that nu^3 is an exact symbol"""
    nu = jnp.exp(lnu)
    f = BB.blackbody_freq_density(nu, T)
    x = HP * nu / (KB * T)
    # scaled: 2 h nu^3 / c^2 in units of 1e-26 W, nu in units of 1e13 Hz
    num = 2 * (HP / C / C * 1e39) * jnp.exp(3 * (lnu - 13 * np.log(10.0)))
    return out(goal=dict(planck=near(f * (jnp.exp(x) - 1) * LS, num, 1e-6 * num), pos=f > 0), obs=dict(f=f * 1e40))


def wave(lw, T):
    w = jnp.exp(lw)                       # angstrom
    f = BB.blackbody_wave_density(w, T)
    x = HP * C / (KB * T) / (w / 1e10)
    num = 2 * (HP * C * C * 1e40 / LS) * jnp.exp(-5 * lw)
    return out(goal=dict(planck=near(f * (jnp.exp(x) - 1), num, 1e-6 * num), pos=f > 0), obs=dict(f=f * 1e10))


def mono(lnu, T, dT):
    nu = jnp.exp(lnu)
    return out(goal=dict(freq=BB.blackbody_freq_density(nu, T + dT) >= BB.blackbody_freq_density(nu, T)))


def monow(lw, T, dT):
    w = jnp.exp(lw)
    return out(goal=dict(wave=BB.blackbody_wave_density(w, T + dT) >= BB.blackbody_wave_density(w, T)))


def peak(T):
    """Wien: the frequency density peaks where (3-x) e^x = 3, the wavelength density at lambda T = 2.8978 mm K"""
    x = HP * BB._jax_bb_frequency_peak(T) / (KB * T)
    return out(goal=dict(freq=near((3 - x) * jnp.exp(x), 3.0, 5e-3), wave=near(BB._jax_bb_wavelength_peak(T) * T * 1e3, 2.897772, 3e-3)))


def harnesses(tier):
    # h nu/kT within [0.01, 50] or so: nu in [1e12,1e14] Hz with T in [100, 5000] K, lambda in [1e4, 1e6] A
    LN, LW, T = Box(27.7, 32.3), Box(9.3, 13.8), Box(100, 5000)
    hot = dict(lnu=Box(30, 38), T=Box(5000, 1e5)), dict(lw=Box(4.6, 12), T=Box(5000, 1e5))     # h nu / kT below 320
    cold = dict(lnu=Box(23, 30), T=Box(2.7, 100)), dict(lw=Box(13.0, 18.0), T=Box(2.7, 100))
    return [H(f"{nm}_{k}", d, f) for k, b in (("hot", hot), ("cold", cold)) for nm, d, f in (("freq", b[0], freq), ("wave", b[1], wave))] + [H("peak", dict(T=Box(1, 50000)), peak), H("freq", dict(lnu=LN, T=T), freq), H("wave", dict(lw=LW, T=T), wave),
            H("mono", dict(lnu=LN, T=T, dT=Box(0, 1000)), mono), H("monow", dict(lw=LW, T=T, dT=Box(0, 1000)), monow)]
