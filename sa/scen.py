"""Abstract scenarios: objects of the analysed package built from symbolic
inputs through the public constructors only."""
import interp
from interp import Interp, AnchorMissing, AbsExc
from terms import sym, P, ZERO, ONE
from values import *
from ops import scalar


def S(name, u=LIT, pos=False, dtype="f", tag=None):
    """symbolic scalar input called `name`"""
    return Arr(Data((), sym(name, pos=pos), u, frozenset({tag or name}), None, dtype))


def D(**kw):
    d = DictV()
    for k, v in kw.items():
        d.d[("s", k)] = (k, v)
    return d


def L(*items):
    return ListV(list(items))


MODEL3 = "-mu-2*t*(cos(a*kx)+cos(b*ky))-4*tp*cos(a*kx)*cos(b*ky)-2*tz*cos(c*kz/2)"
MODEL2 = "-mu-2*t*(cos(a*kx)+cos(b*ky))-4*tp*cos(a*kx)*cos(b*ky)"
# deliberately not in alphabetical order
PARAMS3 = ("t", "mu", "tz", "tp")
PARAMS2 = ("t", "mu", "tp")

A, B_, C_ = "a", "b", "c"
UA = unit(Ang=1)
UE = unit(meV=1)
UG = unit(ps=-1)
UT = unit(T=1)


def band(it, march=False, ortho=True, model=None, params=None, tag="", res=(21, 23, 3), run=True, kmax=None, **over):
    BS = it.need("bandstructure", "BandStructure")
    a = S(A + tag, UA, True)
    b = S(B_ + tag, UA, True) if ortho else Arr(a.data)
    c = S(C_ + tag, UA, True)
    names = params or PARAMS3
    bp = D(**{k: S(k + tag, DLESS) for k in names})
    kw = dict(a=a, b=b, c=c, energy_scale=S("E0" + tag, UE, True), band_params=bp,
              band_model=model or MODEL3, resolution=L(*res), march_square=march, band_name="band" + tag)
    if kmax is not None:
        kw["k_max"] = kmax
    kw.update(over)
    o = it.call(BS, [], kw)
    if run:
        it.call(it.getattr(o, "runBandStructure"), [], {})
    return o


SC_MODELS = ("isotropic", "cos2phi")
SC_PARAMS = {"gamma_0": UG, "gamma_k": UG, "power": DLESS, "power_z": DLESS,
             "gamma_k_sin": UG, "power_sin": DLESS, "gamma_dos_max": UG}


def sc_params(tag="", names=None):
    return D(**{k: S(k + tag, u, True) for k, u in SC_PARAMS.items() if names is None or k in names})


def cond(it, bo, B=True, fin=False, models=SC_MODELS, tag="", neps=4, **over):
    CO = it.need("conductivity", "Conductivity")
    kw = dict(Bamp=S("Bamp" + tag, UT, True) if B else 0,
              Bphi=S("Bphi" + tag, unit(deg=1)), Btheta=S("Btheta" + tag, unit(deg=1)),
              N_time=S("N_time" + tag, DLESS, True, "i"),
              T=S("T" + tag, unit(K=1), True) if fin else 0,
              dfdE_cut_percent=S("cut" + tag, DLESS, True), N_epsilon=neps,
              scattering_models=L(*models), scattering_params=sc_params(tag))
    kw.update(over)
    return it.call(CO, [bo], kw)


def run(it, o, name="runTransport", *a, **k):
    return it.call(it.getattr(o, name), list(a), k)


def add(it, a, b):
    return it.binop("+", a, b)


def mulc(it, a, c):
    return it.binop("*", a, c)


def admr(it, conds, nphi=2, ntheta=3, tag="", **over):
    """n symbolic fields angles: theta = th0 + k*dth, phi_0, phi_1, ..."""
    AD = it.need("admr", "ADMR")
    th0, dth = S("th0" + tag, unit(deg=1), False), S("dth" + tag, unit(deg=1), True)
    kw = dict(Btheta_min=th0, Btheta_max=add(it, th0, mulc(it, dth, ntheta - 1)), Btheta_step=dth,
              Btheta_norm=S("thn" + tag, unit(deg=1)), show_progress=False,
              Bphi_array=L(*[S("ph%d%s" % (i, tag), unit(deg=1)) for i in range(nphi)]))
    kw.update(over)
    return it.call(AD, [L(*conds)], kw)


# ------------------------------------------------------------------ fits
UOm = unit(Ohm=1, m=1)


def path(name):
    return StrV((name,)) if False else name


def multi_data(temps=(25, 12), phis=(0, 45), lo=0, hi=90, step=15, norm=None):
    d = DictV()
    for t in temps:
        for p in phis:
            f = "data_%s_%s.dat" % (t, p)
            row = L(f, 0, 1, lo, hi, step, norm if norm is not None else S("thnorm", unit(deg=1)), S("scale_%s_%s" % (t, p), DLESS, True))
            d.d[("t", (("n", t), ("n", p)))] = ((t, p), row)
    return d


def setd(it, pairs):
    d = DictV()
    for k, v in pairs:
        it.setitem(d, k, v)
    return d


def member(it, tag="", T=0, fixdoping=2, **over):
    kw = dict(band_name="band" + tag, a=S("a" + tag, UA, True), b=S("b" + tag, UA, True), c=S("c" + tag, UA, True),
              energy_scale=S("E0" + tag, UE, True), band_params=D(**{k: S(k + tag, DLESS) for k in PARAMS3}),
              band_model=MODEL3, resolution=L(21, 23, 3), N_time=S("N_time" + tag, DLESS, True, "i"),
              Bamp=S("Bamp" + tag, UT, True), T=T, fixdoping=fixdoping,
              scattering_models=L(*SC_MODELS), scattering_params=sc_params(tag, ("gamma_0", "gamma_k", "power")),
              Bphi_array=L(0, 45), Btheta_min=0, Btheta_max=90, Btheta_step=15, Btheta_norm=S("thnorm", unit(deg=1)),
              data_T=25, data_p=S("data_p", DLESS))
    kw.update(over)
    return D(**kw)


def one_data(it, temps=(25,), phis=(0, 45), cut=90):
    return setd(it, [((t, p), L("data_%s_%s.dat" % (t, p), 0, 1, cut, S("rho0_%s_%s" % (t, p), UOm, True))) for t in temps for p in phis])


def multi_fit(it, temps=(25, 12), phis=(0, 45), bands=("b1",), bounds=None, normalized=True, params=None, rows=None):
    """rows(T, phi) -> columns, polar angles (min, max, step) and normalisation angle of a data file"""
    FT = it.need("fitting_admr_parallel_multiT", "Fitness")
    rows = rows or (lambda t, p: (0, 1, 0, 90, 15, S("thnorm", unit(deg=1))))
    data = setd(it, [((t, p), L("data_%s_%s.dat" % (t, p), *rows(t, p), S("scale_%s_%s" % (t, p), DLESS, True)))
                     for t in temps for p in phis])
    if params is None:
        params = setd(it, [(t, setd(it, [(b, member(it, "_%s_%s" % (t, b), T=0)) for b in bands])) for t in temps])
    if bounds is None:
        bounds = setd(it, [("all", setd(it, [("b1", D(mu=L(S("lo_mu", DLESS), S("hi_mu", DLESS))))]))] +
                      [(t, setd(it, [("b1", D(gamma_0=L(S("lo_g", UG), S("hi_g", UG))))])) for t in temps])
    o = it.call(FT, [data, params, bounds, normalized], {})
    return o, (data, params, bounds)


FITS1 = {"parallel": ("fitting_admr_parallel_oneT", "FittingADMRParallel", "bounds_dict"),
         "series": ("fitting_admr_series_oneT", "FittingADMR", "ranges_dict")}


def one_fit(it, which, free=("gamma_0", "mu", "energy_scale"), mem=None, data=None, **kw):
    mod, cls, bn = FITS1[which]
    C = it.need(mod, cls)
    mem = mem or member(it)
    data = data or one_data(it)
    bounds = D(**{p: L(S("lo_" + p, LIT), S("hi_" + p, LIT)) for p in free})
    kw = dict(kw)
    kw.update({"init_member": mem, bn: bounds, "data_dict": data})
    o = it.call(C, [], kw)
    return o, (mem, bounds, data)


def other_arguments(it, f):
    """a call of method f with every optional argument different from its default: {name: value}"""
    fn = f.func if isinstance(f, BoundV) else f
    if not isinstance(fn, FuncV):
        return {}
    names = [a.arg for a in fn.node.args.args]
    names = names[len(names) - len(fn.defaults):] if fn.defaults else []
    out = {}
    for n, v in list(zip(names, fn.defaults or [])) + list((fn.kwdefaults or {}).items()):
        if isinstance(v, bool):
            out[n] = not v
        elif v is None:
            if n.startswith("gamma"):
                out[n] = S(n + "_arg", UG, True)
            elif n in ("figname", "filename"):
                out[n] = "given"
        elif isinstance(v, str):
            out[n] = "out"
        elif isinstance(v, (int, float)) or isinstance(v, Arr) and v.data.shape == ():
            out[n] = 12 if n.lower().startswith("mesh") else 1 if n.startswith("index") else S(n + "_arg", LIT, True)
    return out
