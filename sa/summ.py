"""Modular summaries: in the rules about ADMR runs and fits, a discretization and
a transport run are represented by uninterpreted functions of every setting their
object holds when they are called (their bodies are the subject of other rules)."""
import terms as T
from terms import P, app, ix, atom
from values import *
import ops

RESULTS = {"kf", "vf", "mass", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "p", "n", "number_of_points_per_kz_list",
           "omegac_tau", "omegac_tau_k", "time_max", "dtime", "time_array", "dtime_array", "gamma_tot_max", "gamma_tot_min",
           "kft", "vft", "tau_tot", "t_o_tau", "v_product", "sigma", "alpha", "beta", "gamma_tot", "phi",
           "dos_k_epsilon", "dkf_epsilon", "kft_epsilon", "vft_epsilon", "t_o_tau_epsilon", "parallel", "var_sym", "energy_sym", "v_sym",
           "band_name", "res_xy_rough", "band_model"}


def flat(name, v, out, deps):
    if isinstance(v, bool) or v is None:
        out.append((name, str(v)))
    elif isinstance(v, (int, float)):
        out.append((name, ops.num(v).term))
    elif isinstance(v, str):
        out.append((name, v))
    elif isinstance(v, Arr):
        if v.data.term is not None:
            out.append((name, ops.lam(v.data)) if v.data.shape else (name, v.data.term))
        else:
            out.append((name, P(atom("sym", "top?" + name))))
        deps.append(v.data.deps)
    elif isinstance(v, ListV):
        for i, x in enumerate(v.items):
            flat("%s[%d]" % (name, i), x, out, deps)
    elif isinstance(v, tuple):
        for i, x in enumerate(v):
            flat("%s[%d]" % (name, i), x, out, deps)
    elif isinstance(v, DictV):
        for k in sorted(v.d, key=str):
            flat("%s[%s]" % (name, k), v.d[k][1], out, deps)


BAND = ("a", "b", "c", "energy_scale", "band_params", "resolution", "k_max", "number_of_bz", "march_square")
COND = ("Bamp", "Bphi", "Btheta", "B_vector", "T", "N_time", "N_epsilon", "dfdE_cut_percent", "epsilon_array", "rtol", "atol", "scattering_models")
RATES = ("gamma_0", "gamma_k", "power", "power_z", "gamma_k_sin", "power_sin", "gamma_dos_max")


def get(it, o, name):
    if name not in o.attrs and o.cls.lookup(name)[0] is None:
        return None
    try:
        return it.getattr(o, name)
    except AbsExc:
        return None


def put(it, o, name, v):
    """result of a summarised method: plain attribute, or what a property of that name reads"""
    if o.cls.lookup(name)[0] is not None:
        try:
            it.setattr(o, name, v)
            return
        except AbsExc:
            if "_" + name in o.attrs:
                o.attrs["_" + name] = v
                return
            raise
    o.attrs[name] = v


def settings(it, o):
    """the settings an object holds: values its constructor takes, read through its public interface, and
    what the assignments derive from them; caches and intermediate results of the object are not settings"""
    out, deps = [], []
    cond = "bandObject" in o.attrs
    for n in COND if cond else BAND:
        if n == "epsilon_array":
            t = get(it, o, "T")
            if isinstance(t, (int, float)) and t == 0:
                continue
        v = get(it, o, n)
        flat(n, v, out, deps)
    if cond:
        names = set(RATES)
        d = get(it, o, "scattering_params")
        if isinstance(d, DictV):
            names |= {k for k in d.d if isinstance(k, str)}
        for n in sorted(names):
            if n in o.attrs or n in names - set(RATES):
                flat(n, get(it, o, n), out, deps)
    return tuple(out), (frozenset().union(*deps) if deps else frozenset())


def fs_arg(it, b):
    """which Fermi surface the band holds now"""
    k = get(it, b, "kf")
    if isinstance(k, Arr) and k.data.term is not None:
        return ("kf", ops.lam(k.data)), k.data.deps
    return ("kf", "None"), frozenset()


def s_band(it, v):
    o = v["self"] if "self" in v else next(x for x in v.values() if isinstance(x, ObjV))
    args, deps = settings(it, o)
    eps = v.get("epsilon")
    e = []
    dl = []
    flat("epsilon", eps, e, dl)
    args = args + tuple(e)
    deps = deps.union(*dl) if dl else deps
    n = P(atom("app", "NFS", args, pos=True))
    A3 = ("A",)

    def arr(name, shape, u, *idx):
        return Arr(Data(shape, P(atom("app", name, tuple(idx) + args, pos=name in ("DKF", "DOS"))), u, deps))
    put(it, o, "kf", arr("KF", ((3,), (n,)), unit(Ang=-1), ix(0), ix(1)))
    put(it, o, "vf", arr("VF", ((3,), (n,)), unit(m=1, s=-1), ix(0), ix(1)))
    put(it, o, "dkf", arr("DKF", ((n,),), unit(Ang=-2), ix(0)))
    put(it, o, "dos_k", arr("DOS", ((n,),), unit(J=-1, m=-1), ix(0)))
    filling = arr("FILLING", (), DLESS)
    put(it, o, "n", filling)
    put(it, o, "p", Arr(Data((), P(1) - filling.data.term, DLESS, deps)))
    it.event("runBandStructure", band=o, epsilon=eps, deps=deps, args=args)
    return None


def s_transport(it, v):
    o = v["self"] if "self" in v else next(x for x in v.values() if isinstance(x, ObjV))
    args, deps = settings(it, o)
    b = get(it, o, "bandObject")
    if isinstance(b, ObjV):
        a2, d2 = settings(it, b)
        f, d3 = fs_arg(it, b)
        args = args + tuple(("band." + n, x) for n, x in a2) + (f,)
        deps = deps | d2 | d3
    for nm, tn, u in (("sigma", "SIGMA", unit(Ohm=-1, m=-1)), ("alpha", "ALPHA", None), ("beta", "BETA", None)):
        put(it, o, nm, Arr(Data(((3,), (3,)), P(atom("app", tn, (ix(0), ix(1)) + args)), u, deps)))
    it.event("runTransport", cond=o, deps=deps, args=args)
    return None


SUMM = {"summary": {"BandStructure.runBandStructure": s_band, "Conductivity.runTransport": s_transport}}
SUMM_T = {"summary": {"Conductivity.runTransport": s_transport}}
