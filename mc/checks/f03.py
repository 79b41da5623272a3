"""F03 unit, SNR/NSD and figure-of-merit conversions."""
import math
import numpy as np
from mc.core import Tree
import adctoolbox as A
from adctoolbox import common as C
from adctoolbox.fundamentals import units as U
from adctoolbox.utils.vpp_for_target_dbfs import vpp_for_target_dbfs

ASSUMPTIONS = ["values from fixed lists spanning the engineering range; thermal limit compared within 0.01 dB "
               "(the value of the Boltzmann constant is not part of the claim)"]

DB = [-160.0, -100.0, -60.2, -20.0, -6.0206, -3.0, -0.5, 0.0, 0.25, 1.76, 6.02, 10.0, 20.0, 61.96, 98.08, 120.0]
POS = [1e-12, 1e-6, 2.5e-4, 0.01, 0.1, 0.5, 1.0, 1.5, 2.0, 3.3, 10.0, 50.0, 1e3, 2e9]
FORMS = ["scalar", "np", "1d", "2d"]


def form(v, f):
    if f == "scalar":
        return v
    if f == "np":
        return np.float64(v)
    a = np.array([v, v * 0.5, v + 1.0]) if f == "1d" else np.array([[v, v * 0.25], [v + 2.0, v + 0.5]])
    return a


def emap(fn, v):
    """Apply a scalar reference elementwise, keeping the shape."""
    a = np.asarray(v, float)
    return np.array([fn(float(x)) for x in a.ravel()]).reshape(a.shape)


def inv(ctx, name, fwd, back, ref, v, f, **kw):
    x = form(v, f)
    keep = np.array(x, copy=True)
    y = ctx.call(fwd, x, **kw)
    ctx.close(y, emap(ref, x), f"{name}({v}, {kw}) [{f}]", rtol=1e-9, atol=1e-12)
    z = ctx.call(back, y, **kw)
    ctx.close(z, np.asarray(x, float), f"round trip of {name}({v}, {kw}) [{f}]", rtol=1e-9, atol=1e-9)
    ctx.equal(np.asarray(x), keep, f"{name} modified its argument")
    ctx.outcome(name, np.asarray(y))


def db_body(ctx, v, f):
    inv(ctx, "db_to_mag", A.db_to_mag, A.mag_to_db, lambda x: 10 ** (x / 20), v, f)
    inv(ctx, "db_to_power", A.db_to_power, A.power_to_db, lambda x: 10 ** (x / 10), v, f)
    inv(ctx, "dbm_to_mw", A.dbm_to_mw, A.mw_to_dbm, lambda x: 10 ** (x / 10), v, f)
    inv(ctx, "snr_to_enob", A.snr_to_enob, A.enob_to_snr, lambda x: (x - 1.76) / 6.02, v, f)
    for z in (None, 1.0, 50, 75.0, 600.0):
        kw = {} if z is None else {"z_load": z}
        zz = 50 if z is None else z
        inv(ctx, "dbm_to_vrms", A.dbm_to_vrms, A.vrms_to_dbm, lambda x: math.sqrt(10 ** (x / 10) / 1000 * zz), v, f, **kw)


def pos_body(ctx, v, f):
    inv(ctx, "mag_to_db", A.mag_to_db, A.db_to_mag, lambda x: 20 * math.log10(x), v, f)
    inv(ctx, "power_to_db", A.power_to_db, A.db_to_power, lambda x: 10 * math.log10(x), v, f)
    inv(ctx, "mw_to_dbm", A.mw_to_dbm, A.dbm_to_mw, lambda x: 10 * math.log10(x), v, f)
    for z in (None, 1.0, 75.0):
        kw = {} if z is None else {"z_load": z}
        zz = 50 if z is None else z
        inv(ctx, "vrms_to_dbm", A.vrms_to_dbm, A.dbm_to_vrms, lambda x: 10 * math.log10(x * x / zz * 1000), v, f, **kw)
        x = form(v, f)
        ctx.close(ctx.call(A.sine_amplitude_to_power, x, **kw), emap(lambda a: a * a / 2 / zz, x),
                  f"sine_amplitude_to_power({v}, {kw})", atol=0)


def lsb_body(ctx, v, vref, bits, f):
    kw = {"vref": vref, "n_bits": bits}
    inv(ctx, "lsb_to_volts", A.lsb_to_volts, A.volts_to_lsb, lambda x: x * vref / 2 ** bits, v, f, **kw)


def bin_body(ctx, fs, n, q):
    b = q / 4
    fr = ctx.call(A.bin_to_freq, b, fs, n)
    ctx.close(fr, b * fs / n, f"bin_to_freq({b}, {fs}, {n})", rtol=1e-12)
    if q % 4 == 2:
        ctx.skip_ambiguous()
    else:
        g = ctx.call(A.freq_to_bin, b * fs / n, fs, n)
        ctx.equal(g, math.floor(b + 0.5), f"freq_to_bin({b * fs / n}, {fs}, {n})")
        ctx.check(isinstance(g, (int, np.integer)), "freq_to_bin must give an integer")
    ctx.outcome(fr)


def nsd_body(ctx, snr, fs, osr, psig, f):
    x = form(snr, f)
    ref = lambda s: psig - s - 10 * math.log10(fs / 2 / osr)
    want = emap(ref, x)
    kw = {"osr": osr, "psignal_dbfs": psig}
    variants = [("top", A.snr_to_nsd, A.nsd_to_snr, kw),
                ("common", C.snr_to_nsd, C.nsd_to_snr, {"osr": osr, "signal_pwr_dbfs": psig}),
                ("common/current name", C.snr_to_nsd, C.nsd_to_snr, kw),
                ("units", U.snr_to_nsd, U.nsd_to_snr, {"osr": osr, "signal_pwr_dbfs": psig})]
    for nm, a, b, k in variants:
        y = ctx.call(a, x, fs, **k)
        ctx.close(y, want, f"{nm} snr_to_nsd({snr}, {fs}, osr={osr}, p={psig})", rtol=1e-9, atol=1e-7)
        z = ctx.call(b, y, fs, **k)
        ctx.close(z, np.asarray(x, float), f"{nm} round trip snr->nsd->snr", rtol=1e-9, atol=1e-7)
    if osr == 1 and psig == 0:
        ctx.close(ctx.call(A.snr_to_nsd, x, fs), want, "snr_to_nsd defaults", atol=1e-7)
        ctx.close(ctx.call(U.snr_to_nsd, x, fs), want, "units snr_to_nsd defaults", atol=1e-7)
        ctx.close(ctx.call(A.nsd_to_snr, want, fs), np.asarray(x, float), "nsd_to_snr defaults", atol=1e-7)
        ctx.close(ctx.call(U.nsd_to_snr, want, fs), np.asarray(x, float), "units nsd_to_snr defaults", atol=1e-7)
    if f == "scalar":
        ctx.check(isinstance(ctx.call(A.snr_to_nsd, snr, fs), float), "scalar SNR must give a float")
    ctx.outcome(want)


def ampsnr_body(ctx, a, s, osr, f):
    def ref(a, s):
        return math.inf if s == 0 else 20 * math.log10(a / math.sqrt(2) / s) + 10 * math.log10(osr)
    x = a if f == "scalar" else np.array([a, a / 2, 2 * a])
    y = s if f == "scalar" else np.array([s, 0.0, s * 3])
    want = np.asarray(ref(a, s)) if f == "scalar" else np.array([ref(p, q) for p, q in zip(x, y)])
    got = ctx.call(A.amplitudes_to_snr, x, y, osr=osr)
    ctx.close(got, want, f"amplitudes_to_snr({a}, {s}, osr={osr})", atol=1e-9)
    tup = ctx.call(A.amplitudes_to_snr, x, y, osr=osr, return_power=True)
    ctx.check(len(tup) == 3, "return_power must give three values")
    ctx.close(tup[0], want, "snr with return_power", atol=1e-9)
    ctx.close(tup[1], np.asarray(x, float) ** 2 / 2, "signal power")
    ctx.close(tup[2], np.asarray(y, float) ** 2, "noise power", atol=0)
    if f == "scalar":
        ctx.check(isinstance(got, float), "scalar amplitudes must give a float")
        ctx.close(ctx.call(A.amplitudes_to_snr, a, np.array([s, 2 * s])), [ref(a, s) - 10 * math.log10(osr), ref(a, 2 * s) - 10 * math.log10(osr)]
                  if s else [math.inf, math.inf], "scalar amplitude with noise vector", atol=1e-9)
    ctx.outcome(want)


def fom_body(ctx, p, fs, x):
    ctx.close(ctx.call(A.calculate_walden_fom, p, fs, x), p / (2 ** x * fs), "Walden FoM", atol=0)
    ctx.close(ctx.call(A.calculate_schreier_fom, p, 6.02 * x, fs), 6.02 * x + 10 * math.log10(fs / p), "Schreier FoM")
    ctx.close(ctx.call(A.calculate_jitter_limit, fs, 1e-13 * x), -20 * math.log10(2 * math.pi * fs * 1e-13 * x), "jitter limit")
    for v in (None, 0.5, 2.0):
        kw = {} if v is None else {"v_fs": v}
        vv = 1.0 if v is None else v
        ctx.close(ctx.call(A.calculate_thermal_noise_limit, x, **kw),
                  10 * math.log10(vv * vv / 8 / (1.380649e-23 * 300 / (x * 1e-12))), f"kT/C limit C={x} {kw}", atol=0.01)
    arr = np.array([x, x + 1.0])
    ctx.close(ctx.call(A.calculate_walden_fom, p, fs, arr), p / (2 ** arr * fs), "Walden FoM array", atol=0)
    ctx.close(ctx.call(A.calculate_schreier_fom, p, 6.02 * arr, fs), 6.02 * arr + 10 * math.log10(fs / p), "Schreier FoM array")
    ctx.outcome(p, fs, x)


def vpp_body(ctx, v, m, t):
    kw = {} if t is None else {"signal_db_target": t}
    tt = -0.5 if t is None else t
    ctx.close(ctx.call(vpp_for_target_dbfs, v, m, **kw), v * 10 ** ((tt - m) / 20), "Vpp for target level")
    ctx.outcome(v, m, t)


def families(tier):
    q = tier == "quick"
    db = DB if q else DB + [x + 0.37 for x in DB]
    pos = POS if q else POS + [x * 1.7 for x in POS]
    return [
        Tree("decibel", [("v", db), ("f", FORMS)], db_body),
        Tree("positive", [("v", pos), ("f", FORMS)], pos_body),
        Tree("lsb", [("v", [0.0, 0.5, 1.0, 7.0, 100.25, -3.0]), ("vref", [0.5, 1.0, 1.8, 5.0]),
                     ("bits", list(range(1, 17))), ("f", FORMS)], lsb_body),
        Tree("bins", [("fs", [1.0, 1e3, 44100.0, 800e6]), ("n", [1, 2, 3, 7, 8, 100, 1024, 8192]),
                      ("q", range(-9, 200 if q else 1000))], bin_body),
        Tree("nsd", [("snr", [0.0, 1.76, 49.92, 80.0, 98.08, -10.0]), ("fs", [1.0, 1e3, 44100.0, 100e6, 800e6]),
                     ("osr", [1, 1.5, 2, 4, 10, 64]), ("psig", [0.0, -0.5, -3.0, -20.0, 2.0]), ("f", FORMS)], nsd_body),
        Tree("amplitudes", [("a", [0.1, 0.5, 1.0, 3.0]), ("s", [0.0, 1e-13, 1e-10, 1e-6, 1e-3, 0.25, 1.0]),
                            ("osr", [1, 1.5, 2, 8, 256]), ("f", ["scalar", "1d"])], ampsnr_body),
        Tree("fom", [("p", [1e-6, 1e-3, 0.5]), ("fs", [1.0, 1e3, 20e6, 1e9]), ("x", [0.5, 1.0, 4.0, 9.5, 12.0, 16.0])], fom_body),
        Tree("vpp", [("v", [0.1, 1.0, 2.5]), ("m", [-40.0, -6.5, -1.0, 0.0, 0.7]), ("t", [None, -0.5, 0.0, -3.0])], vpp_body),
    ]
