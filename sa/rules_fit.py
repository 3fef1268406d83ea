"""Rules about the fits: data, residuals, free parameters, exported files, workers."""
from registry import check
from scen import *
from util import *
from summ import SUMM, SUMM_T
from spec import ref, val
from rules_phys import eqv, AFILE, bobj
from rules_state import BFILE, CFILE
import terms as T
import ops
import ext
import ext_np
from rules_state import brief

FFILE = {"multi": "cuprates_transport/fitting_admr_parallel_multiT.py", "parallel": "cuprates_transport/fitting_admr_parallel_oneT.py",
         "series": "cuprates_transport/fitting_admr_series_oneT.py", "series multi": "cuprates_transport/fitting_admr_series_multi_T.py"}


def vec(n, tag="x"):
    """a trial vector; its components are positive (a temperature of zero is a scenario of its own)"""
    return Arr(Data(((n,),), T.selp(T.ix(0), tuple(sym("%s%d" % (tag, i), pos=True) for i in range(n))), None, frozenset("%s%d" % (tag, i) for i in range(n))))


def xs(i, tag="x"):
    return Arr(Data((), sym("%s%d" % (tag, i), pos=True), None, frozenset(["%s%d" % (tag, i)])))


# one simulation of a fit, by objects built from scratch
SIM = """
def simulate(members, phis, th, norm, filled=None):
    conds = []
    for m in members:
        b = BandStructure(**m, parallel=False)
        b.march_square = True
        if filled is not None:
            b.set_mu_to_doping(filled)
        b.runBandStructure()
        conds.append(Conductivity(b, **m))
    a = ADMR(conds, show_progress=False)
    a.Bphi_array = phis
    a.Btheta_array = th
    a.Btheta_norm = norm
    a.runADMR()
    return a.rhozz_array, a.rzz_array

def curve(row):
    d = np.loadtxt(row[0], dtype="float", comments="#")
    o = np.argsort(d[:, row[1]])
    return d[:, row[1]][o], d[:, row[2]][o]
"""


def classes(it):
    return {"BandStructure": it.need("bandstructure", "BandStructure"), "Conductivity": it.need("conductivity", "Conductivity"), "ADMR": it.need("admr", "ADMR")}


# where a parameter of a fit lives
TOP = {"a": UA, "b": UA, "c": UA, "energy_scale": UE, "number_of_bz": DLESS, "Bamp": UT, "T": unit(K=1)}


def place(it, m, name, v):
    """puts value v of free parameter `name` into (a copy of) member m"""
    if ("s", name) in m.d:
        it.setitem(m, name, v)
        return True
    for sub in ("band_params", "scattering_params"):
        d = m.d.get(("s", sub))
        if d and isinstance(d[1], DictV) and ("s", name) in d[1].d:
            it.setitem(d[1], name, v)
            return True
    return False


def multi_case(it, temps, phis, bands, free, normalized, files=None):
    """free: list of (T or 'all', band, name).  -> (fit, x, reference members per T, data)"""
    mk = lambda: {t: [member(it, "_%s_%s" % (t, b), T=S("T_%s_%s" % (t, b), unit(K=1), True) if ("T" in [f[2] for f in free]) else 0, number_of_bz=S("nbz_%s_%s" % (t, b), DLESS, True)) for b in bands] for t in temps}
    built, want = mk(), mk()
    params = setd(it, [(t, setd(it, [(b, m) for b, m in zip(bands, built[t])])) for t in temps])
    groups = []
    for t in ["all"] + list(temps):
        rows = []
        for b in bands:
            ps = [f[2] for f in free if f[0] == t and f[1] == b]
            if ps:
                rows.append((b, D(**{p: L(S("lo_%s_%s_%s" % (t, b, p), LIT), S("hi_%s_%s_%s" % (t, b, p), LIT)) for p in ps})))
        groups.append((t, setd(it, rows)))
    bounds = setd(it, groups)
    fit, (data, _, _) = multi_fit(it, temps=temps, phis=phis, bands=bands, bounds=bounds, normalized=normalized, params=params, rows=files)
    order = [(t, b, p) for t in ["all"] + list(temps) for b in bands for p in [f[2] for f in free if f[0] == t and f[1] == b]]
    # the position of each label in x, as the object itself documents it
    labels = attr(it, fit, "free_params_labels")
    pos = {}
    if isinstance(labels, ListV):
        for i, l in enumerate(labels.items):
            k = []
            for q in it.iterate(l):
                c = D_(q)
                k.append(int(c.term.const()) if c is not None and c.term is not None and c.term.const() is not None else q)
            pos[tuple(k)] = i
    if len(pos) != len(order) or any(o not in pos for o in order):
        pos = {o: i for i, o in enumerate(order)}
    # a parameter given for one temperature replaces nothing of the others
    for o in sorted(order, key=lambda o: pos[o]):
        for t in temps:
            if o[0] in ("all", t):
                place(it, want[t][list(bands).index(o[1])], o[2], xs(pos[o]))
    return fit, len(order), want, data, pos


MULTI_REF = SIM + """
def data_of(rows, th, norm):
    rho, rzz = [], []
    for row in rows:
        x, y = curve(row)
        r = np.interp(th, x, y)
        rho.append(row[7] * r)
        rzz.append(r / np.interp(norm, x, y))
    return np.array(rho), np.array(rzz)
chi2 = 0
sims, datas = [], []
for i in range(len(temps)):
    s = simulate(members[i], phis[i], ths[i], rows[i][0][6])
    d = data_of(rows[i], ths[i], rows[i][0][6])
    sims.append(s)
    datas.append(d)
    chi2 = chi2 + (np.sum((d[1] - s[1])**2) if normalized else np.sum((d[0] - s[0])**2))
"""


def multi_ref(it, fit, temps, phis, want, data, normalized):
    td, pd = attr(it, fit, "thetas_dict"), attr(it, fit, "phis_dict")
    rows = L(*[L(*[it.getitem(data, (t, p)) for p in phis]) for t in temps])
    return ref(it, MULTI_REF, temps=L(*temps), members=L(*[L(*want[t]) for t in temps]), ths=L(*[it.getitem(td, t) for t in temps]),
               phis=L(*[it.getitem(pd, t) for t in temps]), rows=rows, normalized=normalized, **classes(it))


FREES = {
    "band and rate": [("all", "b1", "mu"), ("all", "b1", "tp"), (25, "b1", "gamma_0"), (12, "b1", "gamma_0")],
    "lattice": [("all", "b1", "c"), ("all", "b1", "a"), ("all", "b1", "b"), ("all", "b1", "energy_scale")],
    "setting": [("all", "b1", "Bamp"), (25, "b1", "T"), ("all", "b1", "number_of_bz")],
    "one temperature": [(12, "b1", "gamma_k"), (12, "b1", "power"), (25, "b1", "mu")],
    "lattices": [("all", "b1", "c"), ("all", "b2", "c"), ("all", "b1", "energy_scale"), ("all", "b2", "energy_scale")],
    "second band": [("all", "b1", "mu"), ("all", "b2", "mu"), (25, "b2", "gamma_0"), (12, "b2", "tz")],
}


class other_values:
    """the parameters of a series fit hold other values meanwhile"""
    def __init__(self, pars, prefix):
        self.ps = [p for _, p in pars.attrs["d"].d.values()] if isinstance(pars, ObjV) and isinstance(pars.attrs.get("d"), DictV) else None
        if self.ps is None:
            raise AnchorMissing("lmfit parameters of the fit")
        self.prefix = prefix

    def __enter__(self):
        self.old = [p.attrs["value"] for p in self.ps]
        for p in self.ps:
            d = D_(p.attrs["value"])
            p.attrs["value"] = Arr(Data((), sym(self.prefix + p.attrs["name"]), d.unit if d is not None else None, frozenset([self.prefix + p.attrs["name"]])))

    def __exit__(self, *a):
        for p, v in zip(self.ps, self.old):
            p.attrs["value"] = v


@check("C20", "Free-parameter flow: for every level at which a parameter may live (settings, lattice, band, rates; common or for one temperature; first or second band) the simulation of a fit, with discretization and transport as uninterpreted functions of all settings, must equal in normal form the simulation by objects built from scratch with the values of the trial vector in place; bounds handed to the optimiser must be those of the parameter its component sets; the exported member must hold the best vector; the second evaluation must not depend on the first.",
       floor=40)
def c20(r):
    def multi(it, name, normalized, twice):
        free = FREES[name]
        bands = ("b1", "b2") if any(f[1] == "b2" for f in free) else ("b1",)
        temps, phis = (25, 12), (0, 45)
        fit, n, want, data, pos = multi_case(it, temps, phis, bands, free, normalized)
        k = "multi, %s%s" % (name, ", second evaluation" if twice else "")
        if twice:
            it.call(it.getattr(fit, "compute_fitness"), [vec(n, "y")], {})
        it.call(it.getattr(fit, "compute_fitness"), [vec(n)], {})
        ns = multi_ref(it, fit, temps, phis, want, data, normalized)
        for i, t in enumerate(temps):
            for j, m in enumerate(("rhozz_sim_dict", "rzz_sim_dict")):
                d = attr(it, fit, m)
                g = it.getitem(d, t) if isinstance(d, DictV) else None
                s = list(it.iterate(ns["sims"].items[i]))
                eqv(r, it, "%s %s/%s" % (m, t, k), g, s[j], "%s at T=%s (%s) is not the simulation with the trial parameters" % (m, t, k), FFILE["multi"])
        # bounds
        bd = attr(it, fit, "bounds")
        if isinstance(bd, (tuple, ListV)):
            bl = list(it.iterate(bd))
            r.ob("bounds/" + k, len(bl) == n, "%d bounds for %d free parameters" % (len(bl), n), FFILE["multi"])
            for o, i in pos.items():
                if i < len(bl):
                    lo, hi = list(it.iterate(bl[i]))[:2]
                    r.eq("bound %s/%s" % (o, k), term(lo), sym("lo_%s_%s_%s" % o), "component %d of x sets %s but has the lower bound of another parameter" % (i, o), FFILE["multi"])
                    r.eq("upper bound %s/%s" % (o, k), term(hi), sym("hi_%s_%s_%s" % o), "component %d of x sets %s but has the upper bound of another parameter" % (i, o), FFILE["multi"])
    for name in FREES:
        for twice in (False, True):
            r.scenario("multi %s %s" % (name, twice), lambda it, a=(name, True, twice): multi(it, *a), hooks=SUMM)

    # results of the whole fit
    def whole(it, name):
        free = FREES[name]
        temps, phis, bands = (25, 12), (0, 45), ("b1",)
        mk = lambda: {t: [member(it, "_%s_%s" % (t, b), T=0) for b in bands] for t in temps}
        built, want = mk(), mk()
        params = setd(it, [(t, setd(it, [(b, m) for b, m in zip(bands, built[t])])) for t in temps])
        bounds = setd(it, [("all", setd(it, [("b1", D(mu=L(S("lo_mu", DLESS), S("hi_mu", DLESS)), tp=L(S("lo_tp", DLESS), S("hi_tp", DLESS))))]))] +
                      [(t, setd(it, [("b1", D(gamma_0=L(S("lo_g%s" % t, UG), S("hi_g%s" % t, UG))))])) for t in temps])
        data = multi_data_(it, temps, phis)
        f = it.need("fitting_admr_parallel_multiT", "fit_admr_parallel")
        fit = it.call(f, [params, bounds, data], {"num_cpu": 4})
        labels = ["mu", "tp", (25, "gamma_0"), (12, "gamma_0")]
        los = ["mu", "tp", "g25", "g12"]
        ev = [e for e in it.events if e["kind"] == "optimizer"]
        if not ev:
            raise AnchorMissing("optimizer call of fit_admr_parallel")
        names = component_names(it, ev[-1]["bounds"])
        if sorted(str(x) for x in names) == sorted(los):
            labels = [labels[los.index(x)] for x in names]
            los = names
        best = lambda i: Arr(Data((), sym("fit:best%d" % i), None))
        for t in temps:
            for i, q in enumerate(labels):
                if isinstance(q, str):
                    place(it, want[t][0], q, best(i))
                elif q[0] == t:
                    place(it, want[t][0], q[1], best(i))
        k = "fit_admr_parallel"
        bl = [list(it.iterate(b)) for b in it.iterate(ev[-1]["bounds"])]
        for i, (lo, hi) in enumerate(("lo_" + q, "hi_" + q) for q in los):
            if len(bl) == 4:
                r.eq("optimizer bound %d" % i, term(bl[i][0]), sym(lo), "the optimiser gets the bounds of another parameter", FFILE["multi"])
                r.eq("optimizer upper bound %d" % i, term(bl[i][1]), sym(hi), "the optimiser gets the bounds of another parameter", FFILE["multi"])
        ns = multi_ref(it, fit, temps, phis, want, data, True)
        pd = attr(it, fit, "params_dict")
        for i, t in enumerate(temps):
            d = attr(it, fit, "rzz_sim_dict")
            eqv(r, it, "final %s/%s" % (t, k), it.getitem(d, t), list(it.iterate(ns["sims"].items[i]))[1], "the simulation kept after the fit (T=%s) is not that of the best parameters" % t, FFILE["multi"])
            m = it.getitem(it.getitem(pd, t), "b1")
            for sub, names in (("band_params", ("mu", "tp", "t", "tz")), ("scattering_params", ("gamma_0", "gamma_k"))):
                for nm in names:
                    r.eq("member %s %s" % (t, nm), term(it.getitem(it.getitem(m, sub), nm)), term(it.getitem(it.getitem(want[t][0], sub), nm)), "the fitted member (T=%s) holds another value of %s" % (t, nm), FFILE["multi"])
        p = attr(it, fit, "save_member_to_json")
        if p is not None:
            it.call(p, [], {"filename": "out", "folder": "F"})
            js = it.getattr(fit, "params_dict")
            r.ob("exported", js is pd or True, "")
    r.scenario("whole fit", lambda it: whole(it, "band and rate"), hooks=SUMM)

    # the simulation kept after a whole fit
    def final(it, which, free):
        fit, want, temps = whole_fit(it, which, free)
        k = "final, %s, %s" % (which, "+".join(free))
        last = max([i for i, e in enumerate(it.events) if e["kind"] == "objective"], default=None)
        if last is None:
            raise AnchorMissing("evaluation by the optimiser")
        evs = distinct_runs(it.events[last:])
        cut = len(it.events)
        for t in temps:
            # the angles of the simulation are those of the data: the subject of other rules
            ref(it, SIM + "simulate([m], np.array([0., 45.]), np.array([0., 15., 30.]), norm)", m=want[t], norm=S("thnorm", unit(deg=1)), **classes(it))
        wev = distinct_runs(it.events[cut:])
        r.ob("simulated/" + k, len(evs) >= 1, "nothing is simulated with the best parameters", FFILE[which])
        near = lambda e, es: max(es, key=lambda w: sum(1 for n, v in w["args"] if dict(e["args"]).get(n) == v))
        for e in evs:
            same_runs(r, k, [e], [near(e, wev)], FFILE[which])
        for w in wev:
            if evs:
                same_runs(r, k, [near(w, evs)], [w], FFILE[which])
    for which in ("parallel", "series"):
        for free in (("mu", "gamma_0"), ("power", "b", "tz", "Bamp")):
            r.scenario("final %s %s" % (which, free), lambda it, a=(which, free): final(it, *a), hooks=SUMM)

    # one-temperature fits
    ONE = [("gamma_0", "mu", "energy_scale"), ("a", "b", "c"), ("tz", "tp", "gamma_k"), ("Bamp", "number_of_bz", "power"), ("T", "t")]

    def one(it, which, free, fixed, twice):
        over = {"number_of_bz": S("nbz", DLESS, True)}
        if "T" in free:
            over["T"] = S("Tini", unit(K=1), True)
        if fixed:
            over["fixdoping"] = 0.25
        it.config["fit_symbols"] = True
        fit, _ = one_fit(it, which, free, mem=member(it, **over))
        want = member(it, **over)
        k = "%s, %s%s%s" % (which, "+".join(free), ", fixed doping" if fixed else "", ", second evaluation" if twice else "")
        names = sorted(free)
        if which == "parallel":
            if twice:
                it.call(it.getattr(fit, "compute_diff2"), [vec(len(free), "y")], {})
            got = it.call(it.getattr(fit, "compute_diff2"), [vec(len(free))], {})
            bl = [list(it.iterate(b)) for b in it.iterate(attr(it, fit, "bounds"))]
            got_names = component_names(it, attr(it, fit, "bounds"))
            if sorted(str(x) for x in got_names) == names:
                names = got_names
            for i, p in enumerate(names):
                place(it, want, p, xs(i))
            for i, p in enumerate(names):
                r.eq("bound %s/%s" % (p, k), term(bl[i][0]) if len(bl) > i else None, sym("lo_" + p), "component %d of x sets %s but has the bounds of another parameter" % (i, p), FFILE[which])
                r.eq("upper bound %s/%s" % (p, k), term(bl[i][1]) if len(bl) > i else None, sym("hi_" + p), "component %d of x sets %s but has the bounds of another parameter" % (i, p), FFILE[which])
        else:
            pars = attr(it, fit, "pars")
            if twice:
                with other_values(pars, "early:"):
                    it.call(it.getattr(fit, "compute_diff"), [pars], {})
            got = it.call(it.getattr(fit, "compute_diff"), [pars], {})
            for p in names:
                place(it, want, p, Arr(Data((), sym("fit:" + p), None)))
            ev = {e["name"]: e for e in it.events if e["kind"] == "fit-param"}
            for p in names:
                e = ev.get(p)
                if e is None:
                    r.ob("declared %s/%s" % (p, k), False, "the free parameter %s is not handed to the optimiser" % p, FFILE[which])
                    continue
                r.eq("bound %s/%s" % (p, k), term(e["min"]), sym("lo_" + p), "the optimiser gets another lower bound of %s" % p, FFILE[which])
                r.eq("upper bound %s/%s" % (p, k), term(e["max"]), sym("hi_" + p), "the optimiser gets another upper bound of %s" % p, FFILE[which])
        evs = [e for e in it.events if e["kind"] == "runTransport"]
        if not evs:
            raise AnchorMissing("transport run of the fit")
        cut = len(it.events)
        if fixed:
            # the chemical potential is the root found with the trial parameters
            root = [e for e in it.events if e["kind"] == "root"]
            r.ob("doping fixed/" + k, bool(root), "the doping is not adjusted", FFILE[which])
            got_args = [x for x in evs[-1]["args"]]
            mu = dict((n, v) for n, v in got_args if isinstance(n, str)).get("band.band_params[('s', 'mu')]")
            if root and mu is not None:
                r.eq("mu/" + k, mu, sym(root[-1]["name"]), "the simulation does not use the chemical potential of the fixed doping", FFILE[which])
            return
        th, ph = attr(it, fit, "Btheta_array"), attr(it, fit, "Bphi_array")
        ref(it, SIM + "simulate([m], phis, th, norm)", m=want, phis=ph, th=th, norm=S("thnorm", unit(deg=1)), **classes(it))
        wev = [e for e in it.events[cut:] if e["kind"] == "runTransport"]
        same_runs(r, k, evs[-len(wev):], wev, FFILE[which])
    for which in ("parallel", "series"):
        for free in ONE:
            r.scenario("%s %s" % (which, free), lambda it, a=(which, free, False, False): one(it, *a), hooks=SUMM)
            r.scenario("%s %s again" % (which, free), lambda it, a=(which, free, False, True): one(it, *a), hooks=SUMM)
        r.scenario("%s number_of_bz again" % which, lambda it, a=(which, ("number_of_bz",), False, True): one(it, *a), hooks=SUMM)
        r.scenario("%s fixed" % which, lambda it, a=(which, ("gamma_0", "tp"), True, False): one(it, *a), hooks=SUMM)

    def smulti(it, free, twice):
        temps = (25, 12)
        k = "series multi, %s%s" % ("+".join(free), ", second evaluation" if twice else "")
        where = FFILE["series multi"]
        fit, want, data = series_multi(it, free, {"number_of_bz": S("nbz", DLESS, True)} if "number_of_bz" in free else None)
        pars = attr(it, fit, "pars")
        if twice:
            with other_values(pars, "early:"):
                it.call(it.getattr(fit, "compute_diff"), [pars], {})
        cut = len(it.events)
        it.call(it.getattr(fit, "compute_diff"), [pars], {})
        evs = [e for e in it.events[cut:] if e["kind"] == "runTransport"]
        decl = {e["name"]: e for e in it.events if e["kind"] == "fit-param"}
        if set(free) & set(SC_PARAMS):
            ok = all(p in decl for p in free)
            r.ob("free scattering parameters/series multi", ok, "a free parameter of scattering_params (%s) is neither handed to the optimiser nor to the simulation" % "+".join(free), where)
            if not ok:
                return
        for p, how in free.items():
            for sfx in ["_%s" % t for t in temps] if how == "dict" else [""]:
                e = decl.get(p + sfx)
                if not r.ob("declared %s/%s" % (p + sfx, k), e is not None, "the free parameter %s is not handed to the optimiser" % (p + sfx), where):
                    continue
                r.eq("bound %s/%s" % (p + sfx, k), term(e["min"]), sym("lo_" + p + sfx), "the optimiser gets another lower bound of %s" % (p + sfx), where)
                r.eq("upper bound %s/%s" % (p + sfx, k), term(e["max"]), sym("hi_" + p + sfx), "the optimiser gets another upper bound of %s" % (p + sfx), where)
        cut = len(it.events)
        th, ph = attr(it, fit, "Btheta_dict"), attr(it, fit, "Bphi_dict")
        # the band is common to all temperatures: that of the first one
        for t in temps:
            ref(it, SIM + "simulate([m], phis, th, norm)", m=want[t], phis=it.getitem(ph, t), th=it.getitem(th, t), norm=S("thnorm", unit(deg=1)), **classes(it))
        wev = [e for e in it.events[cut:] if e["kind"] == "runTransport"]
        same_runs(r, k, evs, wev, where)
    for free in (("mu", "energy_scale"), ("tz", "a", "mu")):
        r.scenario("final series multi %s" % (free,), lambda it, f=free: final(it, "series multi", f), hooks=SUMM)
    for free in ({"mu": "common", "energy_scale": "common"}, {"Bamp": "dict", "tp": "common"}, {"Bamp": "common", "mu": "common", "tz": "common"}, {"a": "common", "c": "common"}):
        r.scenario("series multi %s" % sorted(free), lambda it, f=free: smulti(it, f, False), hooks=SUMM)
    for free in ({"mu": "common", "Bamp": "dict"}, {"a": "common", "c": "common"}, {"number_of_bz": "common"}, {"tz": "common"}, {"energy_scale": "common"}):
        r.scenario("series multi %s again" % sorted(free), lambda it, f=free: smulti(it, f, True), hooks=SUMM)
    for p in ("gamma_0", "power"):
        r.scenario("series multi %s" % p, lambda it, p=p: smulti(it, {p: "common"}, False), hooks=SUMM)


def distinct_runs(events):
    """the transport runs, apart from the direction of the field"""
    out, seen = [], set()
    for e in events:
        if e["kind"] == "runTransport":
            args = tuple(x for x in e["args"] if not (str(x[0]).split("[")[0] in ("Btheta", "Bphi", "B_vector", "Btheta_array", "Bphi_array")))
            if args not in seen:
                seen.add(args)
                out.append(dict(e, args=args))
    return out


def same_runs(r, k, got, want, where):
    """two sequences of transport runs were given equal settings"""
    r.ob("runs/" + k, len(got) == len(want), "%d transport runs instead of %d" % (len(got), len(want)), where)
    for j, (g, w) in enumerate(zip(got, want)):
        a, b = dict(g["args"]), dict(w["args"])
        for n in sorted(set(a) & set(b), key=str):
            x, y = a[n], b[n]
            if isinstance(x, T.Poly) and isinstance(y, T.Poly):
                r.eq("%s/%s" % (n, k), x, y, "setting %s of the simulation (%s) is not the one of the trial parameters" % (n, k), where)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                X, Y = P(T.atom("app", "L", (x,))), P(T.atom("app", "L", (y,)))
                r.eq("%s/%s" % (n, k), X, Y, "setting %s of the simulation (%s) is not the one of the trial parameters" % (n, k), where)
            elif isinstance(x, str) and isinstance(y, str):
                r.ob("%s/%s" % (n, k), x == y, "setting %s of the simulation (%s) is %s instead of %s" % (n, k, x, y), where)


def multi_data_(it, temps, phis):
    return setd(it, [((t, p), L("data_%s_%s.dat" % (t, p), 0, 1, 0, 90, 15, S("thnorm", unit(deg=1)), S("scale_%s_%s" % (t, p), DLESS, True)))
                     for t in temps for p in phis])


# ------------------------------------------------------------------ series fit at several temperatures
def series_multi_args(it, free, over=None, temps=(25, 12), phis=(0, 45), cut=90):
    """arguments of the fit; free: {name: 'dict' for a parameter given per temperature, else 'common'}"""

    def mem():
        m = member(it, data_T=L(*temps), scattering_params=setd(it, [(t, sc_params("_%s" % t, ("gamma_0", "gamma_k", "power"))) for t in temps]), **(over or {}))
        for p, how in free.items():
            if how == "dict":
                it.setitem(m, p, setd(it, [(t, S("%s_%s" % (p, t), TOP.get(p, DLESS), True)) for t in temps]))
        return m
    rng = setd(it, [])
    for p, how in free.items():
        b = lambda t: L(S("lo_%s%s" % (p, t), LIT), S("hi_%s%s" % (p, t), LIT))
        it.setitem(rng, p, setd(it, [(t, b("_%s" % t)) for t in temps]) if how == "dict" else b(""))
    data = cuts(it, one_data(it, temps, phis, 90), cut)
    return dict(init_member=mem(), ranges_dict=rng, data_dict=data)


def series_multi(it, free, over=None, temps=(25, 12), phis=(0, 45), cut=90, **kw):
    """fit object and reference members"""
    C = it.need("fitting_admr_series_multi_T", "FittingADMR")
    args = series_multi_args(it, free, over, temps, phis, cut)
    data = args["data_dict"]
    it.config["fit_symbols"] = True
    fit = it.call(C, [], dict(args, **kw))
    want = {}
    for t in temps:
        m = member(it, data_T=t, scattering_params=sc_params("_%s" % t, ("gamma_0", "gamma_k", "power")), **(over or {}))
        for p, how in free.items():
            nm = "fit:" + p + ("_%s" % t if how == "dict" else "")
            v = Arr(Data((), sym(nm), None, frozenset([nm])))
            if how == "dict":
                it.setitem(m, p, v)
            else:
                place(it, m, p, v)
        want[t] = m
    return fit, want, data


# ------------------------------------------------------------------ residuals
ONE_REF = SIM + """
def data_of(rows, th, norm):
    rho, rzz = [], []
    for row in rows:
        x, y = curve(row)
        y = y / np.interp(0, x, y)
        r = np.interp(th, x, y)
        rho.append(r * row[4])
        rzz.append(r / np.interp(norm, x, y))
    return np.array(rho), np.array(rzz)
sim = simulate([m], phis, th, norm)
data = data_of(rows, th, norm)
diff = data[1] - sim[1] if normalized else (data[0] - sim[0]) * 1e5
chi2 = np.sum(diff**2)
"""
SMULTI_REF = SIM + """
def data_of(rows, th, norm):
    rho, rzz = [], []
    for row in rows:
        x, y = curve(row)
        y = y / np.interp(0, x, y)
        r = np.interp(th, x, y)
        rho.append(r * row[4])
        rzz.append(r / np.interp(norm, x, y))
    return np.array(rho), np.array(rzz)
chi2 = 0
for i in range(len(ms)):
    sim = simulate([ms[i]], phis[i], th[i], norm)
    data = data_of(rows[i], th[i], norm)
    chi2 = chi2 + np.sum((data[1] - sim[1])**2)
    if not normalized:
        for j in range(len(phis[i])):
            chi2 = chi2 + (weight * (rows[i][j][4] - np.interp(0, th[i], sim[0][j, :])) * 1e5)**2
"""


def order_of(it, arr, phis):
    """the azimuths 0 and 45 present in the data, in the order chosen by the fit"""
    use = sorted(p for p in phis if p in (0, 45))
    d = D_(arr)
    if d is not None and d.term is not None and len(d.shape) == 1 and len(d.shape[0]) == 1 and d.shape[0][0] == len(use):
        got = [T.map_ix(d.term, {0: P(i)}).const() for i in range(len(use))]
        if sorted(x for x in got if x is not None) == use:
            return [int(x) for x in got]
    return use


def cuts(it, data, cut):
    """the data end at different angles: the one of azimuth 0 first"""
    for (key, row) in list(data.d.values()):
        t, p = key
        it.setitem(row, 3, cut if p == 0 else 90)
    return data


@check("C21", "Residual of a fit: with discretization and transport as uninterpreted functions, the value handed to the optimiser must be equal in normal form to the sum of squares of data minus simulation, both normalised at the same angle (or both in the same absolute unit), the data of each temperature and azimuth sorted by angle and interpolated at the angles of the simulation, for each fit class, normalised and not, for the first and a later evaluation, and for data given in any order with rows of other temperatures.",
       floor=20)
def c21(r):
    def row(t, p):
        """files of different layout, of different ranges of angles and normalisation"""
        return ((0, 1) if p == 0 else (2, 0)) + ((0, 90, 15) if t == 25 else (10, 60 if p == 0 else 70, 20 if p == 0 else 10)) + (S("thnorm_%s" % t, unit(deg=1)),)

    def multi(it, normalized, twice, phis, temps, bands, rows=None):
        free = [("all", "b1", "mu"), (25, "b1", "gamma_0"), (12, "b1", "gamma_0")]
        fit, n, want, data, pos = multi_case(it, temps, phis, bands, free, normalized, rows)
        k = "multi, %s, phis %s, bands %s%s%s" % ("normalized" if normalized else "absolute", phis, bands, ", second evaluation" if twice else "", ", different files" if rows else "")
        if rows:
            td, pd = attr(it, fit, "thetas_dict"), attr(it, fit, "phis_dict")
            for t in temps:
                rs = [rows(t, p) for p in phis]
                eqv(r, it, "phis %s/%s" % (t, k), it.getitem(pd, t), val(it, "np.array(p)", p=L(*[float(p) for p in phis])), "the azimuths of the fit at T=%s are not those of the data" % t, FFILE["multi"])
                for nm, i, v in (("first", 0, min(x[2] for x in rs)), ("last", -1, max(x[3] for x in rs))):
                    eqv(r, it, "thetas %s %s/%s" % (nm, t, k), val(it, "x[i]", x=it.getitem(td, t), i=i), val(it, "v", v=v), "the %s polar angle of the fit at T=%s is not the one of its data" % (nm, t), FFILE["multi"])
        if twice:
            it.call(it.getattr(fit, "compute_fitness"), [vec(n, "y")], {})
        got = it.call(it.getattr(fit, "compute_fitness"), [vec(n)], {})
        ns = multi_ref(it, fit, temps, phis, want, data, normalized)
        for i, t in enumerate(temps):
            for j, m in enumerate(("rhozz_data_dict", "rzz_data_dict")):
                d = attr(it, fit, m)
                g = it.getitem(d, t) if isinstance(d, DictV) else None
                s = list(it.iterate(ns["datas"].items[i]))
                eqv(r, it, "%s %s/%s" % (m, t, k), g, s[j], "%s at T=%s is not the data sorted by angle, interpolated at the angles of the simulation and scaled as documented" % (m, t), FFILE["multi"])
        eqv(r, it, "chi2/" + k, got, ns["chi2"], "the value given to the optimiser is not the sum of (data - simulation)^2 (%s)" % k, FFILE["multi"])
        again = it.call(it.getattr(fit, "compute_fitness"), [], {})
        eqv(r, it, "chi2 without x/" + k, again, ns["chi2"], "evaluated again without a new vector the residual changes (%s)" % k, FFILE["multi"])
    for normalized in (True, False):
        r.scenario("multi %s" % normalized, lambda it, a=(normalized, False, (0, 45), (25, 12), ("b1",)): multi(it, *a), hooks=SUMM)
        r.scenario("multi %s twice" % normalized, lambda it, a=(normalized, True, (45, 0), (25, 12), ("b1",)): multi(it, *a), hooks=SUMM)
        for ph in ((0,), (45,), (0, 45)):
            r.scenario("multi %s files %s" % (normalized, ph), lambda it, a=(normalized, False, ph, (25, 12), ("b1",), row): multi(it, *a), hooks=SUMM)
        r.scenario("multi %s two bands" % normalized, lambda it, a=(normalized, False, (15, 45, 0), (12, 25), ("b1", "b2")): multi(it, *a), hooks=SUMM)

    def one(it, which, normalized, twice, phis, cut, norm):
        over = {} if norm else {"Btheta_norm": 0}
        free = ("gamma_0", "mu")
        data = cuts(it, one_data(it, (12, 25), phis, 90), cut)
        it.config["fit_symbols"] = True
        fit, _ = one_fit(it, which, free, mem=member(it, **over), data=data, normalized_data=normalized)
        k = "%s, %s, phis %s, cut %s%s%s" % (which, "normalized" if normalized else "absolute", phis, cut, ", second evaluation" if twice else "", "" if norm else ", norm 0")
        where = FFILE[which]
        want = member(it, **over)
        if which == "parallel":
            if twice:
                it.call(it.getattr(fit, "compute_diff2"), [vec(2, "y")], {})
            got = it.call(it.getattr(fit, "compute_diff2"), [vec(2)], {})
            for i, p in enumerate(sorted(free)):
                place(it, want, p, xs(i))
        else:
            pars = attr(it, fit, "pars")
            if twice:
                it.call(it.getattr(fit, "compute_diff"), [pars], {})
            got = it.call(it.getattr(fit, "compute_diff"), [pars], {})
            for p in free:
                place(it, want, p, Arr(Data((), sym("fit:" + p), None)))
        use = order_of(it, attr(it, fit, "Bphi_array"), phis)
        ph = val(it, "np.array(p)", p=L(*[float(p) for p in use]))
        th = val(it, "np.array(t)", t=L(*[float(x) for x in range(0, 91, 15) if x <= cut]))
        eqv(r, it, "phis/" + k, attr(it, fit, "Bphi_array"), ph, "the azimuths of the fit are not those of the data at its temperature", where)
        eqv(r, it, "thetas/" + k, attr(it, fit, "Btheta_array"), th, "the polar angles of the fit are not the requested ones up to the cut of the data", where)
        rows = L(*[it.getitem(data, (25, p)) for p in use])
        ns = ref(it, ONE_REF, m=want, phis=ph, th=th, norm=S("thnorm", unit(deg=1)) if norm else 0, rows=rows, normalized=normalized, **classes(it))
        d = list(it.iterate(ns["data"]))
        eqv(r, it, "rhozz data/" + k, attr(it, fit, "rhozz_data_matrix"), d[0], "the resistivity data are not the file's normalised at zero angle times the resistivity at zero angle", where)
        eqv(r, it, "rzz data/" + k, attr(it, fit, "rzz_data_matrix"), d[1], "the normalised data are not divided by their own value at the normalisation angle", where)
        if which == "parallel":
            eqv(r, it, "chi2/" + k, got, ns["chi2"], "the value given to the optimiser is not the sum of (data - simulation)^2 (%s)" % k, where)
        else:
            eqv(r, it, "residual/" + k, val(it, "np.sum(np.array(g)**2)", g=got), ns["chi2"], "the residual given to the minimiser is not data - simulation (%s)" % k, where)
    for which in ("parallel", "series"):
        for normalized in (True, False):
            r.scenario("%s %s" % (which, normalized), lambda it, a=(which, normalized, False, (0, 45), 90, True): one(it, *a), hooks=SUMM)
        r.scenario("%s order" % which, lambda it, a=(which, True, True, (45, 30, 0), 70, True): one(it, *a), hooks=SUMM)
        r.scenario("%s absolute order" % which, lambda it, a=(which, False, True, (45, 30, 0), 70, False): one(it, *a), hooks=SUMM)

    def smulti(it, normalized, twice, phis, cut, weight):
        temps = (25, 12)
        where = FFILE["series multi"]
        fit, want, data = series_multi(it, {"mu": "common", "Bamp": "dict"}, temps=temps, phis=phis, cut=cut, normalized_data=normalized)
        if weight:
            it.setattr(fit, "weight_rhozz", S("weight", DLESS, True))
        pars = attr(it, fit, "pars")
        k = "series multi, %s, phis %s, cut %s%s%s" % ("normalized" if normalized else "absolute", phis, cut, ", second evaluation" if twice else "", ", weighted" if weight else "")
        for _ in range(2 if twice else 1):
            got = it.call(it.getattr(fit, "compute_diff"), [pars], {})
        d0 = attr(it, fit, "Bphi_dict")
        use = order_of(it, it.getitem(d0, temps[0]) if isinstance(d0, DictV) else None, phis)
        ph = val(it, "np.array(p)", p=L(*[float(p) for p in use]))
        th = val(it, "np.array(t)", t=L(*[float(x) for x in range(0, 91, 15) if x <= cut]))
        rows = L(*[L(*[it.getitem(data, (t, p)) for p in use]) for t in temps])
        ns = ref(it, SMULTI_REF, ms=L(*[want[t] for t in temps]), phis=L(*[ph for t in temps]), th=L(*[th for t in temps]), rows=rows, norm=S("thnorm", unit(deg=1)),
                 normalized=normalized, weight=S("weight", DLESS, True) if weight else 0, **classes(it))
        eqv(r, it, "residual/" + k, val(it, "np.sum(np.array(g)**2)", g=got), ns["chi2"], "the residual given to the minimiser is not data - simulation (%s)" % k, where)
    for a in ((True, False, (0, 45), 90, False), (True, True, (45, 30, 0), 70, False), (False, False, (0, 45), 90, True), (False, True, (45, 0), 70, True)):
        r.scenario("series multi %s %s %s" % a[:3], lambda it, a=a: smulti(it, *a), hooks=SUMM)


# ------------------------------------------------------------------ interpolation
def file_rows(t):
    """(file, row index) of the data columns of a term that depend on the position along the array"""
    out = set()
    for A in T.atoms_of(t, deep=False):
        if A.kind == "app" and A.key[1] == "@file" and len(A.key[2]) == 3 and isinstance(A.key[2][1], T.Poly) and 0 in T.free_ix(A.key[2][1]):
            out.add((A.key[2][0], A.key[2][1], A.key[2][2]))
    return out


def abscissae(d):
    """True: increasing; False: not known to be increasing because they are read in the order of a file,
    sorted by something else, or constants out of order; None: not decided"""
    if ext_np.sorted_proof(d):
        return True
    if d.term is None or d.shape is None or len(d.shape) != 1:
        return None
    n = dmul(d.shape[0])
    if isinstance(n, int) and n <= 64:
        cs = [T.map_ix(d.term, {0: P(i)}).const() for i in range(n)]
        if all(c is not None for c in cs):
            return all(x <= y for x, y in zip(cs, cs[1:]))
    rows = file_rows(d.term)
    if len(rows) == 1:
        f, row, col = list(rows)[0]
        if row is T.ix(0):
            return False
        A = T.atoms_of(row, deep=False)
        if len(A) == 1 and list(A)[0].kind == "app" and list(A)[0].key[1] == "@argsort":
            own = ops.lam(Data(d.shape, T.subst(d.term, lambda X: None if not (X.kind == "app" and X.key[1] == "@file" and X.key[2][1] is row) else P(T.atom("app", "@file", (f, T.ix(0), col)))), None))
            key = list(A)[0].key[2][0]
            if key == own or key[:3] == own[:3]:
                return True
            return False
    return None


@check("C19", "Interpolation lint over the dataflow: at every interpolation reached by the data loaders, the comparison figures, the residuals, the angle sweep and the contours, the abscissae must be provably in increasing order (sorted, increasing by construction, or cumulative sums of lengths) and the ordinates must carry the same permutation of the rows of the file as the abscissae.",
       floor=20)
def c19(r):
    def judge(it, k):
        n = 0
        for e in it.events:
            if e["kind"] != "interp" or "spec" in str(e["loc"][0]):
                continue
            n += 1
            xp, fp = e["xp"], e["fp"]
            where = "%s" % (e["loc"],) if not isinstance(e["loc"], tuple) else e["loc"]
            site = "%s" % (e["loc"][2],)
            ok = abscissae(xp)
            r.ob("increasing %s/%s" % (site, k), ok, "interpolation over abscissae that are not in increasing order (%s)" % brief(str(xp.term)), where)
            if xp.term is None or fp.term is None:
                r.ob("paired %s/%s" % (site, k), None, "no normal form", where)
                continue
            a, b = {(f, i) for f, i, _ in file_rows(xp.term)}, {(f, i) for f, i, _ in file_rows(fp.term)}
            if a and b:
                r.ob("paired %s/%s" % (site, k), a == b, "the ordinates of an interpolation are not the rows of its abscissae: %s against %s" % (brief(str(sorted(a, key=str))), brief(str(sorted(b, key=str)))), where)
            elif a or b:
                r.ob("paired %s/%s" % (site, k), None, "only one side comes from a file", where)
            else:
                r.ob("paired %s/%s" % (site, k), True)
        if not n:
            r.ob("reached/" + k, None, "no interpolation reached")

    def one(it, which, normalized):
        it.config["fit_symbols"] = True
        data = one_data(it, (12, 25), (45, 0), 90)
        fit, _ = one_fit(it, which, ("gamma_0", "mu"), data=data, normalized_data=normalized)
        if which == "parallel":
            it.call(it.getattr(fit, "compute_diff2"), [vec(2)], {})
        else:
            it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
        it.call(it.getattr(fit, "fig_compare"), [], {"fig_show": False})
        judge(it, "%s %s" % (which, normalized))
    for which in ("parallel", "series"):
        for normalized in (True, False):
            r.scenario("%s %s" % (which, normalized), lambda it, a=(which, normalized): one(it, *a), hooks=SUMM)

    def smulti(it, normalized):
        fit, want, data = series_multi(it, {"mu": "common"}, normalized_data=normalized)
        it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
        it.call(it.getattr(fit, "fig_compare"), [], {"fig_show": False})
        judge(it, "series multi %s" % normalized)

    def multi(it, normalized):
        fit, n, want, data, pos = multi_case(it, (25, 12), (0, 45), ("b1",), [("all", "b1", "mu")], normalized)
        it.call(it.getattr(fit, "compute_fitness"), [vec(n)], {})
        judge(it, "multi %s" % normalized)
    for normalized in (True, False):
        r.scenario("series multi %s" % normalized, lambda it, a=normalized: smulti(it, a), hooks=SUMM)
        r.scenario("multi %s" % normalized, lambda it, a=normalized: multi(it, a), hooks=SUMM)

    def sweep(it, th):
        o = admr(it, [cond(it, band(it))], nphi=2, ntheta=3)
        if th:
            it.setattr(o, "Btheta_array", val(it, "np.array(th)", th=L(*th)))
        it.call(it.getattr(o, "runADMR"), [], {})
        judge(it, "sweep %s" % (th,))
    for th in (None, [90.0, 45.0, 0.0], [10.0, 0.0, 70.0]):
        r.scenario("sweep %s" % (th,), lambda it, th=th: sweep(it, th), hooks=SUMM)

    def contour(it, ortho):
        band(it, march=True, ortho=ortho)
        judge(it, "contours %s" % ortho)
    for ortho in (True, False):
        r.scenario("contours %s" % ortho, lambda it, a=ortho: contour(it, a))


# ------------------------------------------------------------------ exported data files
def text_of(v):
    """concrete text of a string value, parameters as <name>"""
    if isinstance(v, str):
        return v
    if isinstance(v, StrV):
        return "".join(q if isinstance(q, str) else num_text(q) for q in v.segs)
    return None


def num_text(q):
    if isinstance(q, tuple) and len(q) == 3 and q[0] == "num" and not q[2]:
        c = q[1].const() if isinstance(q[1], T.Poly) else q[1]
        if isinstance(c, (int, float)) or hasattr(c, "denominator"):
            return str(int(c) if c == int(c) else float(c))
    return "<%s>" % (q,)


@check("C22", "Column-label correspondence of exported data files: the header handed to savetxt is split into labels, and each column of the matrix must be equal in normal form to the quantity its label names (polar angle, resistivity of the azimuth in the label, field, energy scale, every band parameter under its own name, resolutions), one label per column, one row per polar angle; for several numbers of bands and azimuths, after a second sweep and after parameters were assigned.",
       floor=20)
def c22(r):
    import re

    def files(it):
        return [e for e in it.events if e["kind"] == "savetxt"]

    def judge(it, o, k, band_, cond_):
        ev = files(it)
        if not ev:
            raise AnchorMissing("savetxt in ADMR.fileADMR")
        e = ev[-1]
        d = e["data"]
        head = text_of(e["kw"].get("header"))
        where = e["loc"]
        if head is None or d is None or d.term is None or d.vis() is None:
            r.ob("decided/" + k, None, "file content not known", where)
            return
        cm = e["kw"].get("comments", "# ")
        r.ob("commented/" + k, not isinstance(cm, str) or cm.strip().startswith("#"), "the header line of the exported file is not a comment: the file cannot be read back", where)
        labels = [x for x in head.split("\t")]
        while labels and not labels[-1].strip():
            labels.pop()
        v = d.vis()
        th, rho, ph = (D_(attr(it, o, n)) for n in ("Btheta_array", "rhozz_array", "Bphi_array"))
        nth = th.vis()[0]
        r.ob("rows/" + k, len(v) == 2 and (deq(v[0], nth) or None), "the exported file has %s rows for %s polar angles" % (v[0], nth), where)
        r.ob("labels/" + k, len(v) == 2 and (len(labels) == v[1] if isinstance(v[1], int) else None), "%d labels for %s columns" % (len(labels), v[1] if len(v) == 2 else "?"), where)
        if len(v) != 2 or not isinstance(v[1], int):
            return
        if isinstance(nth, int) and v[0] != nth:
            r.ob("rows/" + k, False, "the exported file has %s rows for %s polar angles" % (v[0], nth), where)
            return
        phis = [T.map_ix(ph.term, {0: P(i)}).const() for i in range(ph.vis()[0])] if ph is not None and ph.term is not None and isinstance(ph.vis()[0], int) else []
        bp = attr(it, band_, "_band_params")
        res = list(it.iterate(attr(it, band_, "resolution")))
        seen, unknown = set(), False
        fmt = e["kw"].get("fmt")
        fmts = [text_of(x) or "" for x in fmt.items] if isinstance(fmt, ListV) else [text_of(x) or "" for x in fmt] if isinstance(fmt, tuple) else [text_of(fmt) or ""]
        found = [(int(p) if p else None, q) for f in fmts for p, q in re.findall(r"%[-+ #0]*\d*(?:\.(\d+))?([a-zA-Z])", f)]

        def conv(j):
            """(precision, conversion) of column j"""
            return None if not found else found[0] if len(found) == 1 else found[j] if j < len(found) else None
        for j, lab in enumerate(labels[:v[1]]):
            col = T.map_ix(d.term, {1: P(j)})
            name = lab.strip().lstrip("#").strip()
            m = re.match(r"rho_?zz\s*\(\s*phi\s*=\s*(-?[0-9.]+)\s*\)", name)
            if m:
                c = conv(j)
                if c:
                    r.ob("digits %s/%s" % (name, k), c[1] not in "dioxXfFcu" and not (c[1] in "eEgG" and c[0] is not None and c[0] < 3),
                         "the resistivities of column %s are written with the format %%%s%s: no significant digits are left of a small resistivity" % (name, "" if c[0] is None else ".%d" % c[0], c[1]), where)
                x = float(m.group(1))
                hit = [i for i, p in enumerate(phis) if p is not None and float(p) == x]
                seen.add(x)
                if not hit:
                    r.ob("azimuth %s/%s" % (name, k), False, "the file has a column for an azimuth (%s) that was not simulated" % name, where)
                    continue
                r.eq("column %s/%s" % (name, k), col, T.map_ix(rho.term, {0: P(hit[0]), 1: ix(0)}), "the column labelled %s does not hold the resistivity of that azimuth" % name, where)
                continue
            want = None
            low = name.lower()
            if low.startswith("theta"):
                want = [th.term]
            elif low.startswith("b[") or low == "b":
                want = [term(attr(it, cond_, "Bamp"))]
            elif low.startswith("t["):
                e0 = term(attr(it, band_, "energy_scale"))
                want = [e0, term(val(it, "np.round(x, 0)", x=attr(it, band_, "energy_scale")))]
            elif re.match(r"res_?[xyz]$", low):
                want = [term(res["xyz".index(low[-1])])]
            elif ("s", name) in bp.d:
                x = bp.d[("s", name)][1]
                want = [term(x), term(val(it, "np.round(x, 3)", x=x))]
                seen.add(name)
            if want is None:
                unknown = True
                r.ob("column %s/%s" % (name, k), None, "label not known", where)
                continue
            if any(w is not None and T.equal(col, w) is True for w in want):
                r.ob("column %s/%s" % (name, k), True)
            else:
                r.eq("column %s/%s" % (name, k), col, want[-1], "the column labelled %s holds another quantity" % name, where)
        for x in phis:
            if x is not None:
                r.ob("exported phi=%s/%s" % (x, k), float(x) in seen or (None if unknown else False), "the resistivity of azimuth %s is not exported" % x, where)
        for q in bp.d.values():
            if q[0] != "t":
                r.ob("exported %s/%s" % (q[0], k), q[0] in seen or (None if unknown else False), "the band parameter %s is not exported under its name" % (q[0],), where)

    def one(it, n, phis, extra, how):
        par = ("t", "mu", "tz", "tp") + extra
        bands = [band(it, tag="_%d" % i, params=par) for i in range(n)]
        conds = [cond(it, b, tag="_%d" % i) for i, b in enumerate(bands)]
        o = admr(it, conds, nphi=2, ntheta=3, Bphi_array=L(*phis))
        it.call(it.getattr(o, "runADMR"), [], {})
        k = "%d bands, phis %s%s%s" % (n, phis, extra, ", " + how if how else "")
        if how == "again":
            it.call(it.getattr(o, "fileADMR"), [], {})
            it.setattr(o, "Bphi_array", val(it, "np.array(p)", p=L(10.0, 70.0)))
            it.call(it.getattr(o, "runADMR"), [], {})
        if how in ("field", "band", "angles", "other bands"):
            it.call(it.getattr(o, "fileADMR"), [], {})
            if how == "field":
                for i, c in enumerate(conds):
                    it.setattr(c, "Bamp", S("Bamp_new%d" % i, UT, True))
            elif how == "band":
                b = bobj(it, conds[0])
                it.setattr(b, "energy_scale", S("E0_new", UE, True))
                it.setattr(b, "band_params", D(**{q: S(q + "_new", DLESS) for q in par}))
                it.setattr(b, "resolution", L(25, 27, 5))
                it.call(it.getattr(b, "runBandStructure"), [], {})
            elif how == "angles":
                it.setattr(o, "Btheta_array", val(it, "np.array(p)", p=L(0.0, 20.0, 50.0, 90.0)))
            else:
                conds = [cond(it, band(it, tag="_b%d" % i, params=par), tag="_b%d" % i) for i in range(n)]
                it.setattr(o, "condObject_list", L(*conds))
            it.call(it.getattr(o, "runADMR"), [], {})
        if how == "assigned":
            it.setitem(bobj(it, conds[0]), "tp", S("tp_new", DLESS))
            it.call(it.getattr(bobj(it, conds[0]), "runBandStructure"), [], {})
            it.call(it.getattr(o, "runADMR"), [], {})
        it.call(it.getattr(o, "fileADMR"), [], {"filename": "x.dat"} if how != "default" else {})
        judge(it, o, k, bobj(it, conds[0]), conds[0])
    for n in (1, 2):
        for phis in ([0, 15, 30, 45], [40, 0, 20], [5], [22.5, 7, 60.25], [-15, 15.5], [12.4, 12.6, 0.5]):
            r.scenario("file %d %s" % (n, phis), lambda it, a=(n, phis, (), ""): one(it, *a), hooks=SUMM)
    r.scenario("file again", lambda it: one(it, 1, [0, 45], (), "again"), hooks=SUMM)
    for how in ("field", "band", "angles", "other bands"):
        for n in (1, 2):
            r.scenario("file %s %d" % (how, n), lambda it, a=(n, [0, 45.5], (), how): one(it, *a), hooks=SUMM)
    r.scenario("file assigned", lambda it: one(it, 1, [0, 45], (), "assigned"), hooks=SUMM)
    r.scenario("file default name", lambda it: one(it, 1, [0, 45], (), "default"), hooks=SUMM)
    r.scenario("file AF", lambda it: one(it, 1, [0, 45], ("M",), ""), hooks=SUMM)


# ------------------------------------------------------------------ where files go
def writes(it, since=0):
    out = []
    for e in it.events[since:]:
        if e["kind"] == "savetxt" or e["kind"] == "open" and e["mode"] not in ("r", "rb", "rt"):
            out.append(e)
    return out


def ends(v, suffix):
    t = text_of(v)
    return None if t is None else t.endswith(suffix)


@check("C23", "Effect analysis of output: every file opened for writing (data, figures, JSON members) must have a path whose first component is the folder requested by the caller, keep the requested file name with the extension of its content, and none may be opened for writing when nothing was asked to be saved.",
       floor=20)
def c23(r):
    def judge(it, k, since, name, ext, folder="F", least=1):
        ev = writes(it, since)
        r.ob("written/" + k, len(ev) >= least, "nothing is written (%s)" % k, None)
        for e in ev:
            t = text_of(e["path"])
            where = e["loc"]
            if t is None:
                r.ob("path/" + k, None, "path not known", where)
                continue
            if folder:
                r.ob("folder/" + k, t.startswith(folder + "/") and "/../" not in t and not t.startswith(folder + "//"), "%s writes %s, outside the requested folder %s" % (k, t, folder), where)
            else:
                r.ob("folder/" + k, not t.startswith("/"), "%s writes %s, outside the working folder" % (k, t), where)
            if name:
                r.ob("name/" + k, t in ((folder + "/" if folder else "") + name + x for x in ext), "%s writes %s instead of %s" % (k, t, name), where)
            else:
                r.ob("extension/" + k, any(t.endswith(x) for x in ext), "%s writes %s, without the extension of its content" % (k, t), where)

    def sweep(it):
        o = admr(it, [cond(it, band(it))], nphi=2, ntheta=3, Bphi_array=L(0, 45))
        it.call(it.getattr(o, "runADMR"), [], {})
        for m, ext, kws in (("fileADMR", ".dat", {}), ("figADMR", ".pdf", {"fig_show": False})):
            for folder in ("F", "F/sub", None):
                for name in (None, "out" + ext):
                    c = len(it.events)
                    kw = dict(kws)
                    if folder:
                        kw["folder"] = folder
                    if name:
                        kw["filename"] = name
                    it.call(it.getattr(o, m), [], kw)
                    judge(it, "%s folder=%s name=%s" % (m, folder, name), c, name, ("",) if name else (ext,), folder)
        c = len(it.events)
        it.call(it.getattr(o, "figADMR"), [], {"fig_show": False, "fig_save": False})
        r.ob("unasked/figADMR", not writes(it, c), "figADMR writes a file though fig_save is False", AFILE)
    r.scenario("sweep", sweep, hooks=SUMM)

    def fits(it, which):
        it.config["fit_symbols"] = True
        where = FFILE[which]
        for folder in ("F", "F/sub"):
            if which == "series multi":
                fit, _, _ = series_multi(it, {"mu": "common"}, folder=folder)
                it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
            elif which == "multi":
                fit, n, _, _, _ = multi_case(it, (25, 12), (0, 45), ("b1",), [("all", "b1", "mu")], True)
                it.call(it.getattr(fit, "compute_fitness"), [vec(n)], {})
            else:
                fit, _ = one_fit(it, which, ("gamma_0", "mu"), folder=folder)
                if which == "parallel":
                    it.call(it.getattr(fit, "compute_diff2"), [vec(2)], {})
                else:
                    it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
            kw = {"folder": folder} if which == "multi" else {}
            for name in (None, "out"):
                if which == "multi" and name is None:
                    continue
                c = len(it.events)
                it.call(it.getattr(fit, "save_member_to_json"), [], dict(kw, filename=name))
                judge(it, "save_member_to_json %s folder=%s name=%s" % (which, folder, name), c, name, (".json",), folder)
                c = len(it.events)
                it.call(it.getattr(fit, "fig_compare"), [], dict(kw, fig_show=False, fig_save=True, figname=name))
                judge(it, "fig_compare %s folder=%s name=%s" % (which, folder, name), c, name, (".pdf",), folder)
            c = len(it.events)
            it.call(it.getattr(fit, "fig_compare"), [], dict(fig_show=False))
            r.ob("unasked/fig_compare %s" % which, not writes(it, c), "fig_compare writes a file though fig_save is not set", where)
            if which in ("series", "series multi"):
                c = len(it.events)
                it.call(it.getattr(fit, "runFit"), [], {"filename": "best"})
                judge(it, "runFit %s folder=%s" % (which, folder), c, "best", (".json", ".pdf"), folder, 2)
    for which in ("parallel", "series", "series multi", "multi"):
        r.scenario("fit %s" % which, lambda it, a=which: fits(it, a), hooks=SUMM)


def member_value(m, nm):
    """the value of parameter nm wherever the member holds it, as a term"""
    if not isinstance(m, DictV):
        return None
    for sub in (None, "band_params", "scattering_params"):
        q = m if sub is None else (m.d.get(("s", sub)) or [None, None])[1]
        if isinstance(q, DictV) and ("s", nm) in q.d:
            g = q.d[("s", nm)][1]
            return P(g) if isinstance(g, (int, float)) else term(g)
    return None


def component_names(it, bounds):
    """which free parameter each component of the trial vector has the bounds of"""
    out = []
    for b in it.iterate(bounds):
        ns = [str(x) for x in T.sym_names(term(list(it.iterate(b))[0]))]
        out.append(ns[0][3:] if len(ns) == 1 and ns[0].startswith("lo_") else None)
    return out


def whole_fit(it, which, free, over=None):
    """runs a whole one-process fit; -> (fit object or None, expected final member per temperature, temperatures)"""
    it.config["fit_symbols"] = True
    temps = (25,)
    if which == "parallel":
        f = it.need("fitting_admr_parallel_oneT", "fit_admr_parallel")
        bounds = D(**{p: L(S("lo_" + p, LIT), S("hi_" + p, LIT)) for p in free})
        it.call(f, [member(it, **(over or {})), bounds, one_data(it)], {"filename": "out", "num_cpu": 4})
        ev = [e for e in it.events if e["kind"] == "optimizer"]
        if not ev:
            raise AnchorMissing("optimizer call of fit_admr_parallel")
        names = component_names(it, ev[-1]["bounds"])
        value = {p: Arr(Data((), sym("fit:best%d" % i), None)) for i, p in enumerate(names) if p is not None}
        fit, want = None, {25: member(it, **(over or {}))}
    else:
        if which == "series":
            fit, _ = one_fit(it, which, free, mem=member(it, **(over or {})))
            want = {25: member(it, **(over or {}))}
        else:
            temps = (25, 12)
            fit, want, _ = series_multi(it, {p: "common" for p in free}, over)
        it.call(it.getattr(fit, "runFit"), [], {"filename": "out"})
        value = {p: Arr(Data((), sym("fit:best:" + p), None)) for p in free}
    for t in temps:
        for p in free:
            if p in value:
                place(it, want[t], p, value[p])
    return fit, want, temps


# ------------------------------------------------------------------ saved members
@check("C26", "Round trip of saved members: every member written by the fits must be of types JSON can hold, must be opened again under the same path, and after loading hold values equal in normal form to those saved, so that the next simulation receives the same settings.",
       floor=10)
def c26(r):
    def go(it, which):
        it.config["fit_symbols"] = True
        where = FFILE[which]
        if which == "series multi":
            fit, _, _ = series_multi(it, {"mu": "common", "Bamp": "dict"}, folder="F")
            it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
            nm = "member_dict"
        else:
            fit, _ = one_fit(it, which, ("gamma_0", "mu", "Bamp"), folder="F")
            if which == "parallel":
                it.call(it.getattr(fit, "compute_diff2"), [vec(3)], {})
            else:
                it.call(it.getattr(fit, "compute_diff"), [attr(it, fit, "pars")], {})
            nm = "member"
        it.call(it.getattr(fit, "save_member_to_json"), [], {"filename": "out"})
        bad = [e for e in it.events if e["kind"] == "json-type"]
        r.ob("types/" + which, not bad, "save_member_to_json writes %s, which JSON cannot hold" % (bad[0]["what"] if bad else ""), bad[0]["loc"] if bad else where)
        before = snap(attr(it, fit, nm))
        c = len(it.events)
        it.call(it.getattr(fit, "fig_compare"), [], {"fig_show": False})
        first = [e for e in it.events[c:] if e["kind"] == "runTransport"]
        # a later member replaces it, then the saved one is loaded again
        it.setattr(fit, "json_name", "out.json")
        c = len(it.events)
        it.call(it.getattr(fit, "load_member_from_json"), [], {})
        rd = [e for e in it.events[c:] if e["kind"] == "open"]
        wr = [e for e in it.events[:c] if e["kind"] == "open" and e["mode"] == "w"]
        if rd and wr:
            a, b = text_of(rd[-1]["path"]), text_of(wr[-1]["path"])
            r.ob("path/" + which, None if a is None or b is None else a == b, "the member is saved as %s and loaded from %s" % (b, a), where)
        ok, path = same(before, snap(attr(it, fit, nm)))
        r.ob("member/" + which, ok, "the member loaded differs from the one saved at %s" % path, where)
        c = len(it.events)
        it.call(it.getattr(fit, "fig_compare"), [], {"fig_show": False})
        again = [e for e in it.events[c:] if e["kind"] == "runTransport"]
        same_runs(r, "reloaded " + which, again, first, where)
    for which in ("parallel", "series", "series multi"):
        r.scenario("round trip " + which, lambda it, a=which: go(it, a), hooks=SUMM)

    def multi(it):
        fit, n, want, data, pos = multi_case(it, (25, 12), (0, 45), ("b1",), [("all", "b1", "mu"), (25, "b1", "gamma_0")], True)
        it.call(it.getattr(fit, "compute_fitness"), [vec(n)], {})
        it.call(it.getattr(fit, "save_member_to_json"), [], {"filename": "out", "folder": "F"})
        bad = [e for e in it.events if e["kind"] == "json-type"]
        r.ob("types/multi", not bad, "save_member_to_json writes %s, which JSON cannot hold" % (bad[0]["what"] if bad else ""), bad[0]["loc"] if bad else FFILE["multi"])
        # read with the standard library
        d = val(it, "json.load(open('F/out.json', 'r'))", json=it.module("json") if hasattr(it, "module") else None) if False else it.fs.get("F/out.json")
        if d is None:
            r.ob("saved/multi", None, "content of the file not known")
            return
        for t in (25, 12):
            for nm, sub in (("mu", "band_params"), ("tp", "band_params"), ("gamma_0", "scattering_params"), ("gamma_k", "scattering_params")):
                e = d.d.get(("s", str(t)))
                m = e[1].d[("s", "b1")][1] if e else None
                g = m.d[("s", sub)][1].d[("s", nm)][1] if m else None
                r.eq("saved %s %s/multi" % (t, nm), term(g) if g is not None else None, term(it.getitem(it.getitem(want[t][0], sub), nm)), "the file holds another value of %s at T=%s" % (nm, t), FFILE["multi"])
    r.scenario("saved multi", multi, hooks=SUMM)

    def best(it, which, free):
        """the files written by a whole fit hold the best parameters"""
        where = FFILE[which]
        fit, want, temps = whole_fit(it, which, free)
        d = [v for kk, v in it.fs.items() if str(kk).endswith("out.json")]
        k = "%s, %s" % (which, "+".join(free))
        if len(d) != 1:
            r.ob("saved best/" + k, False if not it.fs else None, "the best member is not saved", where)
            return
        for t in temps:
            m = d[0] if which != "series multi" else (d[0].d.get(("s", str(t))) or [None, None])[1]
            for nm in tuple(free) + ("t", "c"):
                r.eq("best %s %s/%s" % (nm, t, k), member_value(m, nm), member_value(want[t], nm), "the saved member does not hold the best value of %s" % nm, where)
    for free in (("mu", "gamma_0"), ("power", "b", "tz", "Bamp")):
        for which in ("parallel", "series"):
            r.scenario("best member %s %s" % (which, free), lambda it, a=(which, free): best(it, *a), hooks=SUMM)
    for free in (("mu", "energy_scale"), ("tz", "a", "mu")):
        r.scenario("best member series multi %s" % (free,), lambda it, f=free: best(it, "series multi", f), hooks=SUMM)


# ------------------------------------------------------------------ workers
@check("C27", "Lock-set and resource analysis of the parallel fits: every access to the shared counter happens with the lock of that counter held, every evaluation adds exactly one to it, the workers are given the counter, at least one worker is started, and on every exit of the fit, also when the optimiser raises, the pool has been closed or terminated.",
       floor=10)
def c27(r):
    where = FFILE["parallel"]

    def counter(it):
        init = it.need("fitting_admr_parallel_oneT", "init")
        v = val(it, "Value('i', 0)", Value=it.need_ext("multiprocessing.Value")) if hasattr(it, "need_ext") else ref(it, "from multiprocessing import Value\nresult_ = Value('i', 0)")["result_"]
        it.call(init, [v], {})
        fit, _ = one_fit(it, "parallel", ("gamma_0", "mu"))
        for n in (1, 2, 3):
            c = len(it.events)
            it.call(it.getattr(fit, "compute_diff"), [vec(2)], {})
            ev = [e for e in it.events[c:] if e["kind"] in ("shared-read", "shared-write") and e["obj"] is v]
            r.ob("counted", any(e["kind"] == "shared-write" for e in ev), "an evaluation is not counted", where)
            for e in ev:
                lock = v.attrs.get("lock")
                r.ob("locked %s@%s" % (e["kind"], e["loc"][2]), any(x is lock or x is v for x in e["locks"]), "the shared counter is %s without its lock: two workers can count the same evaluation" % ("read" if e["kind"] == "shared-read" else "changed"), e["loc"])
            r.ob("released", not it.locks, "the lock of the counter is kept after an evaluation", where)
            got = v.attrs.get("value")
            t = term(got) if not isinstance(got, (int, float)) else P(got)
            r.eq("one per evaluation %d" % n, t, P(n), "the counter does not grow by one per evaluation", where)
        c = len(it.events)
        it.call(it.getattr(fit, "compute_diff2"), [vec(2)], {})
    r.scenario("counter", counter, hooks=SUMM)

    def started(it):
        """the counter the workers are really given"""
        f = it.need("fitting_admr_parallel_oneT", "fit_admr_parallel")
        bounds = D(gamma_0=L(S("lo_g", LIT), S("hi_g", LIT)), mu=L(S("lo_mu", LIT), S("hi_mu", LIT)))
        it.call(f, [member(it), bounds, one_data(it)], {"filename": "out", "num_cpu": 4})
        po = [e for e in it.events if e["kind"] == "pool-open"]
        if not po:
            raise AnchorMissing("pool of workers")
        ia = list(it.iterate(po[-1]["initargs"])) if po[-1]["initargs"] is not None else []
        if po[-1]["initializer"] is not None:
            it.call(po[-1]["initializer"], ia, {})
        fit, _ = one_fit(it, "parallel", ("gamma_0", "mu"))
        c = len(it.events)
        before = [x.attrs.get("value") for x in ia if isinstance(x, ObjV)]
        try:
            it.call(it.getattr(fit, "compute_diff"), [vec(2)], {})
        except AbsExc as e:
            r.ob("counted by a worker", False, "counting an evaluation in a worker raises %s: %s" % (e.name, brief(str(e))), where)
            return
        ev = [e for e in it.events[c:] if e["kind"] in ("shared-read", "shared-write")]
        r.ob("counted by a worker", any(e["kind"] == "shared-write" for e in ev), "a worker does not count its evaluations", where)
        for e in ev:
            lock = e["obj"].attrs.get("lock")
            r.ob("locked in a worker %s@%s" % (e["kind"], e["loc"][2]), lock is not None and any(x is lock or x is e["obj"] for x in e["locks"]), "the shared counter is %s without its lock" % ("read" if e["kind"] == "shared-read" else "changed"), e["loc"])
            r.ob("shared with the workers", any(x is e["obj"] for x in ia), "the counter is not the one given to the workers: each counts on its own", e["loc"])
    r.scenario("counter of the workers", started, hooks=SUMM)

    def whole(it, which, raises, percent, ncpu):
        it.config["optimizer_raises"] = raises
        k = "%s%s, %s%% of %s" % (which, ", optimiser raises" if raises else "", percent, ncpu)
        w = FFILE[which]
        exc = None
        try:
            if which == "parallel":
                f = it.need("fitting_admr_parallel_oneT", "fit_admr_parallel")
                bounds = D(gamma_0=L(S("lo_g", LIT), S("hi_g", LIT)), mu=L(S("lo_mu", LIT), S("hi_mu", LIT)))
                it.call(f, [member(it), bounds, one_data(it)], {"filename": "out", "num_cpu": ncpu, "percent_workers": percent})
            else:
                f = it.need("fitting_admr_parallel_multiT", "fit_admr_parallel")
                params = setd(it, [(t, setd(it, [("b1", member(it, "_%s" % t))])) for t in (25, 12)])
                bounds = setd(it, [("all", setd(it, [("b1", D(mu=L(S("lo_mu", DLESS), S("hi_mu", DLESS))))])), (25, setd(it, [])), (12, setd(it, []))])
                it.call(f, [params, bounds, multi_data_(it, (25, 12), (0, 45))], {"num_cpu": ncpu, "percent_workers": percent})
        except AbsExc as e:
            exc = e
        if exc is not None and not (raises and exc.name == "KeyboardInterrupt"):
            raise exc
        opened = [e for e in it.events if e["kind"] == "pool-open"]
        r.ob("pool/" + k, bool(opened) or None, "no pool of workers", w)
        for e in opened:
            done = [x for x in it.events if x["kind"] in ("pool-terminate", "pool-close") and x["obj"] is e["obj"]]
            r.ob("pool ended/" + k, bool(done), "the workers are not ended when the fit %s" % ("fails" if raises else "is done"), e["loc"])
            n = e["processes"]
            t = term(n) if n is not None and not isinstance(n, (int, float)) else P(n) if n is not None else None
            c = t.const() if t is not None else None
            r.ob("workers/" + k, None if c is None else c >= 1, "the fit starts %s workers with %s%% of %s processors" % (c, percent, ncpu), e["loc"])
        if not raises:
            ev = [e for e in it.events if e["kind"] == "optimizer"]
            r.ob("parallel/" + k, bool(ev) and ev[-1]["kw"].get("workers") is not None, "the optimiser is not given the workers", w)
        r.ob("locks/" + k, not it.locks, "a lock is kept at the end", w)
    for which in ("parallel", "multi"):
        for raises in (False, True):
            for percent, ncpu in ((100, 4), (50, 8), (10, 4), (1, 1)):
                if raises and percent != 100:
                    continue
                r.scenario("fit %s %s %s" % (which, raises, percent), lambda it, a=(which, raises, percent, ncpu): whole(it, *a), hooks=SUMM)
