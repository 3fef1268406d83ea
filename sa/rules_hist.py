"""Repetition, ownership, purity and finite-temperature history rules."""
from registry import check
from scen import *
from util import *
from summ import SUMM
from rules_state import compare_objects, brief, FS_ARRAYS, TRANSPORT, sc_params, BFILE, CFILE
import terms as T

AFILE = "cuprates_transport/admr.py"


def class_methods(o, prefixes):
    """public methods of an object whose name starts with one of the prefixes"""
    out = []
    for c in o.cls.mro():
        for n, v in c.ns.items():
            if isinstance(v, FuncV) and n.startswith(prefixes) and n not in out:
                out.append(n)
    return sorted(out)


# ------------------------------------------------------------------ C05
@check("C05", "Accumulator analysis of the angle sweep (transport runs replaced by uninterpreted functions of the settings): two consecutive runs, and a run after other settings were used, must leave terms identical to those of a first run of a fresh object; the total filling must normalise to the sum of the bands' fillings and the total doping to one minus it, for one, two and three bands.", floor=20)
def c05(r):
    def conds(it, n, tag="", names=None):
        # the bands may be described in different numbers of Brillouin zones
        over = [{"number_of_bz": S("nbz%d" % i, DLESS, True)} if names is None else {"band_name": names[i], "number_of_bz": i + 1} for i in range(n)]
        return [cond(it, band(it, tag="_%d%s" % (i, tag), **over[i]), tag="_%d%s" % (i, tag)) for i in range(n)]

    def names_of(it, o):
        return [n for n in public(o) if n not in ("condObject_list",)]

    def twice(it, n, progress, change, names=None):
        cs = conds(it, n, names=names)
        o = admr(it, cs, show_progress=progress)
        if change:
            run(it, o)if False else it.call(it.getattr(o, "runADMR"), [], {})
            b = it.getattr(cs[0], "bandObject")
            it.setitem(b, "mu", S("mu_new", DLESS))
            run(it, b, "runBandStructure")
            it.call(it.getattr(o, "runADMR"), [], {})
        else:
            it.call(it.getattr(o, "runADMR"), [], {})
            it.call(it.getattr(o, "runADMR"), [], {})
        cs2 = conds(it, n, names=names)
        if change:
            b = it.getattr(cs2[0], "bandObject")
            it.setitem(b, "mu", S("mu_new", DLESS))
            run(it, b, "runBandStructure")
        f = admr(it, cs2, show_progress=progress)
        it.call(it.getattr(f, "runADMR"), [], {})
        k = "%d band%s%s%s" % (n, "s" if n > 1 else "", ", changed" if change else "", ", named " + "+".join(names) if names else "")
        compare_objects(r, it, "repeat/" + k, o, f, names_of(it, f), "second angle sweep (%s)" % k)
        tot = P(0)
        for c in cs:
            tot = tot + term(attr(it, it.getattr(c, "bandObject"), "n"))
        fl, dp = attr(it, o, "total_filling"), attr(it, o, "total_hole_doping")
        if fl is None or dp is None:
            raise AnchorMissing("ADMR totals")
        r.eq("total filling/" + k, term(fl), tot, "total filling of %s is not the sum of the fillings of the bands" % k, writer(o, "total_filling", AFILE))
        r.eq("total doping/" + k, term(dp), ONE - tot, "total doping of %s is not one minus the total filling" % k, writer(o, "total_hole_doping", AFILE))
        nm = attr(it, o, "band_names")
        if isinstance(nm, ListV):
            r.ob("names/" + k, len(nm.items) == n, "%d band names for %d bands after two sweeps" % (len(nm.items), n), writer(o, "band_names", AFILE))
    for n in (1, 2, 3):
        for change in (False, True):
            for progress in (False, True) if r.thorough else (n == 2,):
                r.scenario("%d bands, change=%s, progress=%s" % (n, change, progress), lambda it, a=(n, progress, change): twice(it, *a), hooks=SUMM)

    for names in (("x", "x"), ("x", "y", "x"), ("", "")):
        for change in (False, True):
            r.scenario("bands named %s, change=%s" % ("+".join(names), change), lambda it, a=(len(names), False, change, names): twice(it, *a), hooks=SUMM)

    # doping of a set of bands
    def dop(it, n):
        f = it.need("bandstructure", "doping")
        bs = [band(it, tag="_%d" % i, run=False, number_of_bz=S("nbz%d" % i, DLESS, True)) for i in range(n)]
        p1 = it.call(f, [L(*bs)], {})
        p2 = it.call(f, [L(*bs)], {})
        tot = P(0)
        for b in bs:
            x = term(attr(it, b, "n"))
            if x is None:
                r.ob("bands doping/%d" % n, None, "no filling")
                return
            tot = tot + x
        r.eq("bands doping/%d" % n, term(p1), ONE - tot, "the doping of %d bands is not one minus the sum of their fillings" % n, BFILE)
        r.eq("bands doping repeated/%d" % n, term(p2), term(p1), "the doping of %d bands changes when it is computed again" % n, BFILE)
    for n in (1, 2, 3):
        r.scenario("doping of %d bands" % n, lambda it, n=n: dop(it, n))

    # the real transport, once
    def real(it):
        c = cond(it, band(it), True, False)
        o = admr(it, [c], nphi=1, ntheta=2)
        it.call(it.getattr(o, "runADMR"), [], {})
        s1 = {n: snap(attr(it, o, n)) for n in names_of(it, o)}
        it.call(it.getattr(o, "runADMR"), [], {})
        for n in s1:
            res, p = same(s1[n], snap(attr(it, o, n)))
            r.ob("real/" + n, res, "'%s%s' differs after a second angle sweep" % (n, p), writer(o, n, AFILE))
    if r.thorough:
        r.scenario("full transport", real)


# ------------------------------------------------------------------ C06
def shared(a, b, exempt=()):
    """mutable objects reachable from both"""
    ra, rb = reach(a), reach(b)
    out = []
    for i in ra:
        if i in rb and mutable(ra[i][1]) and i not in exempt:
            x = ra[i][1]
            if isinstance(x, ObjV) and isinstance(x.cls, str):
                continue      # objects of external libraries (sympy, compiled functions) are immutable
            if isinstance(x, Arr) and x.data.shape is not None and any(dmul(g) == 0 for g in x.data.shape):
                continue
            out.append((ra[i][0], rb[i][0]))
    return out


@check("C06", "Ownership analysis: for every public constructor and setter, the mutable objects reachable from the arguments and from the built object (and from two objects built with default arguments) must be disjoint; after every run of the built object the containers of the caller must be structurally unchanged.", floor=30)
def c06(r):
    def disjoint(key, args, obj, where, what):
        for n, v in args.items():
            s = shared(v, obj)
            r.ob("disjoint/%s(%s)" % (key, n), not s, "%s keeps the caller's %s itself (%s is %s of the argument): changing one changes the other" % (
                what, n, s and "." + s[0][1], s and (s[0][0] or "the object")), where)

    def unchanged(key, before, args, where, what):
        for n, v in args.items():
            res, p = same(before[n], snap(v))
            r.ob("unchanged/%s(%s)" % (key, n), res, "%s changes the caller's %s%s" % (what, n, p), where)

    def bs(it):
        kw = dict(band_params=D(**{k: S(k, DLESS) for k in PARAMS3}), resolution=L(21, 22, 3),
                  k_max=L(S("kmx", DLESS, True), S("kmy", DLESS, True), S("kmz", DLESS, True)))
        BS = it.need("bandstructure", "BandStructure")
        before = {n: snap(v) for n, v in kw.items()}
        o = it.call(BS, [S("a", UA, True), S("b", UA, True), S("c", UA, True), S("E0", UE, True)], dict(kw, band_model=MODEL3))
        disjoint("BandStructure", kw, o, BFILE, "the band structure")
        run(it, o, "runBandStructure")
        it.setitem(o, "t", S("t2", DLESS))
        run(it, o, "set_mu_to_doping", S("p_target", DLESS))
        it.setattr(o, "energy_scale", S("E2", UE, True))
        unchanged("BandStructure", before, kw, BFILE, "using the band structure")
        disjoint("BandStructure, used", kw, o, BFILE, "the band structure")
        nd = D(**{k: S(k + "_new", DLESS) for k in PARAMS3})
        b2 = snap(nd)
        it.setattr(o, "band_params", nd)
        disjoint("band_params assignment", {"band_params": nd}, o, BFILE, "the band structure")
        it.setitem(o, "t", S("t3", DLESS))
        unchanged("band_params assignment", {"band_params": b2}, {"band_params": nd}, BFILE, "changing a parameter of the band structure")
    r.scenario("band structure", bs)

    def defaults(it):
        BS = it.need("bandstructure", "BandStructure")
        a = [S("a", UA, True), S("b", UA, True), S("c", UA, True), S("E0", UE, True)]
        o1, o2 = it.call(BS, list(a), {}), it.call(BS, list(a), {})
        s = shared(o1, o2)
        r.ob("defaults/BandStructure", not s, "two band structures built with default arguments share %s" % (s and s[0][0]), BFILE)
        it.setitem(o1, "t", S("t9", DLESS))
        k = attr(it, o1, "k_max")
        if isinstance(k, ListV):
            it.setitem(k, 0, S("k9", DLESS))
        o3 = it.call(BS, list(a), {})
        for n in ("band_params", "k_max", "resolution"):
            if n in public(o2) or attr(it, o2, n) is not None:
                res, p = same(snap(attr(it, o2, n)), snap(attr(it, o3, n)))
                r.ob("defaults/later BandStructure." + n, res, "changing one band structure changes the default %s of the next" % n, BFILE)
    r.scenario("default band structures", defaults)

    def co(it, fin, march=False, B=True):
        b = band(it, march)
        kw = dict(scattering_models=L(*SC_MODELS), scattering_params=sc_params())
        args = dict(kw, bandObject=b)
        before = {n: snap(v) for n, v in args.items()}
        o = cond(it, b, B, fin, **kw)
        w = "the transport object"
        disjoint("Conductivity" + (" march" if march else ""), args, o, CFILE, w)
        run(it, o)
        it.setattr(o, "Bamp", S("Bamp2", UT, True))
        own = attr(it, o, "bandObject")
        it.setitem(own, "t", S("t2", DLESS))
        run(it, own, "runBandStructure")
        run(it, o)
        unchanged("Conductivity%s" % (" finite T" if fin else ""), before, args, CFILE, "using the transport object")
        disjoint("Conductivity, used", args, o, CFILE, w)
        nd = sc_params("_new")
        b2 = snap(nd)
        it.setattr(o, "scattering_params", nd)
        disjoint("scattering_params assignment", {"scattering_params": nd}, o, "cuprates_transport/scattering.py", w)
        run(it, o)
        unchanged("scattering_params assignment", {"scattering_params": b2}, {"scattering_params": nd}, CFILE, "a run")
    r.scenario("transport", lambda it: co(it, False))
    r.scenario("transport, finite T", lambda it: co(it, True))
    r.scenario("transport, squares", lambda it: co(it, False, True))
    r.scenario("transport, squares, finite T, no field", lambda it: co(it, True, True, False))

    def built(it, march, ortho, fin, B, ran, models):
        b = band(it, march, ortho, run=ran)
        kw = dict(scattering_models=L(*models), scattering_params=sc_params())
        args = dict(kw, bandObject=b)
        o = cond(it, b, B, fin, **kw)
        k = "%s %s %s %s %s %d" % (march, ortho, fin, B, ran, len(models))
        disjoint("Conductivity built " + k, args, o, CFILE, "the transport object")
        # an angle sweep over it, and a change of the caller's objects
        own = snap(it.getattr(o, "bandObject"))
        it.setitem(b, "mu", S("mu_c", DLESS))
        it.setattr(b, "energy_scale", S("E_c", UE, True))
        it.call(it.getattr(b, "runBandStructure"), [], {})
        res, p = same(own, snap(it.getattr(o, "bandObject")))
        r.ob("private band/" + k, res, "changing and running the band of the caller changes the band of the transport object (%s)" % p, CFILE)
    for march in (False, True):
        for ortho in (False, True):
            for fin in (False, True):
                for B in (False, True):
                    for ran in (False, True):
                        if (march + ortho + fin + B + ran) % 2 and not r.thorough and not (march and fin):
                            continue
                        r.scenario("built %s" % ((march, ortho, fin, B, ran),), lambda it, a=(march, ortho, fin, B, ran): built(it, *a, models=SC_MODELS if a[2] else ("isotropic",)))

    def cdefaults(it):
        CO = it.need("conductivity", "Conductivity")
        b = band(it)
        mk = lambda: it.call(CO, [b, S("Bamp", UT, True)], {"scattering_models": L("isotropic"), "scattering_params": sc_params()})
        o1, o2 = mk(), mk()
        s = shared(o1, o2)
        r.ob("defaults/Conductivity", not s, "two transport objects built with default arguments share %s" % (s and s[0][0]), CFILE)
        m = attr(it, o1, "scattering_models")
        if isinstance(m, ListV):
            it.call(it.getattr(m, "append"), ["cos2phi"], {})
        o3 = mk()
        res, p = same(snap(attr(it, o2, "scattering_models")), snap(attr(it, o3, "scattering_models")))
        r.ob("defaults/later Conductivity", res, "changing one transport object changes the default scattering models of the next", CFILE)
    r.scenario("default transports", cdefaults)

    def two(it):
        b = band(it)
        m, p = L(*SC_MODELS), sc_params()
        o1 = cond(it, b, scattering_models=m, scattering_params=p)
        o2 = cond(it, b, scattering_models=m, scattering_params=p)
        s = shared(o1, o2)
        r.ob("two/Conductivity", not s, "two transport objects built from the same arguments share %s" % (s and s[0][0]), CFILE)
    r.scenario("two transports", two)

    def ad(it):
        AD = it.need("admr", "ADMR")
        c = cond(it, band(it))
        phis = L(S("ph0", unit(deg=1)), S("ph1", unit(deg=1)))
        b4 = snap(phis)
        o = admr(it, [c], Bphi_array=phis)
        disjoint("ADMR", {"Bphi_array": phis}, o, AFILE, "the angle sweep")
        it.call(it.getattr(o, "runADMR"), [], {})
        unchanged("ADMR", {"Bphi_array": b4}, {"Bphi_array": phis}, AFILE, "the angle sweep")
        o1, o2 = it.call(AD, [L(c)], {}), it.call(AD, [L(cond(it, band(it, tag="_2"), tag="_2"))], {})
        s = shared(o1, o2)
        r.ob("defaults/ADMR", not s, "two angle sweeps built with default arguments share %s" % (s and s[0][0]), AFILE)
        arr = Arr(Data(((4,),), app("phis", ix(0)), unit(deg=1)))
        o3 = admr(it, [c], Bphi_array=arr)
        disjoint("ADMR array", {"Bphi_array": arr}, o3, AFILE, "the angle sweep")
    r.scenario("angle sweep", ad, hooks=SUMM)

    def mt(it):
        o, (data, params, bounds) = multi_fit(it, bands=("b1", "b2"))
        args = {"data_dict": data, "params_dict": params, "bounds_dict": bounds}
        F = "cuprates_transport/fitting_admr_parallel_multiT.py"
        disjoint("Fitness", args, o, F, "the fit")
        b4 = {n: snap(v) for n, v in args.items()}
        x = xvec(3)
        run(it, o, "compute_fitness", x)
        bx = snap(x)
        run(it, o, "compute_fitness", x)
        unchanged("Fitness", dict(b4, x=bx), dict(args, x=x), F, "an evaluation of the fit")
        disjoint("Fitness, used", args, o, F, "the fit")
    r.scenario("multi-temperature fit", mt, hooks=SUMM)

    def mt0(it):
        _, (data, params, bounds) = multi_fit(it)
        FT = it.need("fitting_admr_parallel_multiT", "Fitness")
        args = {"data_dict": data, "params_dict": params, "bounds_dict": bounds}
        b4 = {n: snap(v) for n, v in args.items()}
        it.call(FT, [data, params, bounds], {})
        unchanged("Fitness construction", b4, args, "cuprates_transport/fitting_admr_parallel_multiT.py", "building the fit")
    r.scenario("multi-temperature fit construction", mt0, hooks=SUMM)

    def one(it, which, fix):
        mem = member(it, fixdoping=fix)
        data = one_data(it)
        b4m, b4d = snap(mem), snap(data)
        o, (mem, bounds, data) = one_fit(it, which, mem=mem, data=data)
        F = "cuprates_transport/%s.py" % FITS1[which][0]
        args = {"init_member": mem, "bounds": bounds, "data_dict": data}
        b4 = {"init_member": b4m, "data_dict": b4d, "bounds": snap(bounds)}
        disjoint(FITS1[which][1] + " " + which, args, o, F, "the fit")
        evaluate_fit(it, o, which)
        evaluate_fit(it, o, which)
        unchanged(which + " fit" + (" fixed doping" if fix != 2 else ""), b4, args, F, "an evaluation of the fit")
        disjoint(FITS1[which][1] + " " + which + ", used", args, o, F, "the fit")
        init = attr(it, o, "init_member")
        if isinstance(init, DictV):
            res, p = same(b4m, snap(init))
            r.ob("initial member/%s" % which, res, "an evaluation of the fit changes the initial member it keeps (%s)" % p, F)
    for which in FITS1:
        r.scenario(which + " fit", lambda it, which=which: one(it, which, 2), hooks=SUMM)
        r.scenario(which + " fit, fixed doping", lambda it, which=which: one(it, which, 0), hooks=SUMM)


    def smt(it):
        import rules_fit
        C = it.need("fitting_admr_series_multi_T", "FittingADMR")
        F = "cuprates_transport/fitting_admr_series_multi_T.py"
        args = rules_fit.series_multi_args(it, {"mu": "common", "Bamp": "dict"})
        b4 = {n: snap(v) for n, v in args.items()}
        fit = it.call(C, [], dict(args))
        disjoint("FittingADMR series multi", args, fit, F, "the fit")
        evaluate_fit(it, fit, "series multi")
        evaluate_fit(it, fit, "series multi")
        unchanged("series multi fit", b4, args, F, "an evaluation of the fit")
        disjoint("FittingADMR series multi, used", args, fit, F, "the fit")
    r.scenario("series multi fit", smt, hooks=SUMM)


def xvec(n, name="x"):
    return Arr(Data(((n,),), app(name, ix(0)), LIT, frozenset(["x"])))


def evaluate_fit(it, o, which, n=3):
    if which == "parallel":
        return run(it, o, "compute_diff2", xvec(n))
    return run(it, o, "compute_diff", it.getattr(o, "pars"))


# ------------------------------------------------------------------ C07
OWN = {   # diagnostics and the results they are asked for
    "dos_epsilon_func": {"dos_epsilon"}, "mass_func": {"mass"}, "omegac_tau_func": {"omegac_tau_k", "omegac_tau"},
    "doping": {"n", "p"}, "filling": {"n", "p"}, "update_filling": {"n", "p"}, "doping_per_kz": set(),
    "bandParameters": set(), "file_name_func": set(), "update_total_doping": {"total_filling", "total_hole_doping"},
    "tau_total_max": set(), "tau_total_min": set(), "B_func": set(), "energyCutOff": set(), "dfdE": set(),
    "energy_func": set(), "velocity_func": set(), "get_band_param": set(), "dispersion_grid": set(),
}
NESTED = {"condObject_list", "bandObject"}
SCRATCH = {"phi", "gamma_tot", "v_product"}   # working arrays of the last evaluated expression


@check("C07", "Purity (effect) analysis: every figure, export and diagnostic method found on the public classes is analysed on objects that hold results; every public setting and result of the object, of the objects it contains and of the caller's arguments must have the same term before and after, except the quantity the method is asked for.", floor=60)
def c07(r):
    def calls(it, o):
        out = []
        for n in class_methods(o, ("fig", "file", "save_member")) + [m for m in OWN if it_has(o, m)]:
            if n not in out:
                out.append(n)
        return out

    def it_has(o, n):
        return any(n in c.ns for c in o.cls.mro())

    ARGS = {"energyCutOff": lambda: [S("cutarg", unit(meV=-1), True)], "dfdE": lambda: [S("eps1", UE)],
            "get_band_param": lambda: ["t"],
            "energy_func": lambda: [karr(i) for i in range(3)], "velocity_func": lambda: [karr(i) for i in range(3)],
            "dispersion_grid": lambda: [L(11, 12, 13)]}

    def karr(i):
        return Arr(Data(((7,),), app("karg%d" % i, ix(0)), unit(Ang=-1), frozenset(["karg"])))

    def state(it, o, skip):
        d = {}
        # a private attribute counts when a public name reads it; other private attributes are caches
        for n in sorted(set(public(o)) | {x.lstrip("_") for x in o.attrs if o.cls.lookup(x.lstrip("_"))[0] is not None}):
            v = o.attrs.get(n, o.attrs.get("_" + n))
            if n in skip or n in NESTED:      # nested objects are compared on their own
                continue
            d[n] = snap(v)
        return d

    def one(it, mk, name, who, other=False):
        # a method under test has not been called while its object was prepared
        o, others = mk(it, name not in OWN)
        skip = set(SCRATCH) | OWN.get(name, set())
        a = ARGS.get(name, list)()
        args = snap(tuple(a))
        kw = other_arguments(it, it.getattr(o, name)) if other else {}
        if other and not kw:
            return
        before = state(it, o, skip)
        arrays = {n: o.attrs.get(n, o.attrs.get("_" + n)) for n in before}
        ob = [(w, x, state(it, x, SCRATCH)) for w, x in others]
        try:
            it.call(it.getattr(o, name), a, kw)
        except AbsExc as e:
            r.ob("called/%s.%s%s" % (who, name, "(other arguments)" if other else ""), None, "raises %s" % e)
            return
        after = state(it, o, skip)
        loc = it.getattr(o, name)
        for n in before:
            if n not in after:
                r.ob("pure/%s.%s:%s" % (who, name, n), False, "%s.%s removes '%s'" % (who, name, n), BFILE)
                continue
            res, p = same(before[n], after[n])
            v = arrays[n]
            if res is None and isinstance(v, Arr) and v is o.attrs.get(n, o.attrs.get("_" + n)) and v.data.term is None and before[n].kind == "arr" and before[n].v.term is not None:
                res = False     # written in place, with contents that have no normal form
            r.ob("pure/%s.%s:%s" % (who, name, n), res, "%s.%s changes '%s%s' of the object" % (who, name, n, p), writer(o, n))
        for w, x, b in ob:
            af = state(it, x, SCRATCH)
            for n in b:
                res, p = same(b[n], af.get(n, snap(None)))
                r.ob("pure/%s.%s:%s.%s" % (who, name, w, n), res, "%s.%s changes '%s%s' of the %s" % (who, name, n, p, w), writer(x, n))
        res, p = same(args, snap(tuple(a)))
        r.ob("pure/%s.%s:arguments" % (who, name), res, "%s.%s changes its argument %s" % (who, name, p), None)

    def mk_band(march, ortho=True):
        def f(it, diag=True):
            b = band(it, march, ortho)
            if diag:
                run(it, b, "dos_epsilon_func")
            if march and diag:
                run(it, b, "mass_func")
            return b, []
        return f

    def mk_cond(march, fin, B=True):
        def f(it, diag=True):
            b = band(it, march)
            c = cond(it, b, B, fin)
            run(it, c)
            if B and diag:
                run(it, c, "omegac_tau_func")
            return c, [("band", it.getattr(c, "bandObject")), ("caller's band", b)]
        return f

    def mk_admr(it, diag=True):
        cs = [cond(it, band(it, True, tag="_%d" % i, number_of_bz=S("nbz%d" % i, DLESS, True)), tag="_%d" % i) for i in range(2)]
        o = admr(it, cs)
        it.call(it.getattr(o, "runADMR"), [], {})
        return o, [("transport", cs[0]), ("second transport", cs[1])] + [("band", it.getattr(c, "bandObject")) for c in cs]

    def mk_admr_numbers(it, diag=True):
        c = cond(it, band(it, True))
        o = admr(it, [c], Bphi_array=L(45, 0, 22.5), Btheta_min=90, Btheta_max=0, Btheta_step=-45)
        it.call(it.getattr(o, "runADMR"), [], {})
        return o, [("transport", c), ("band", it.getattr(c, "bandObject"))]

    def methods(mk, hooks=None):
        it = Interp(hooks=hooks)
        o, _ = mk(it)
        return calls(it, o)

    plans = [("BandStructure", mk_band(False), None), ("BandStructure (square)", mk_band(True), None),
             ("Conductivity", mk_cond(False, False), None), ("Conductivity (finite T)", mk_cond(True, True), None),
             ("ADMR", mk_admr, SUMM), ("ADMR (unsorted angles)", mk_admr_numbers, SUMM)]
    if r.thorough:
        plans += [("BandStructure (tetragonal)", mk_band(True, False), None), ("Conductivity (no field)", mk_cond(False, False, False), None)]
    total = 0
    for who, mk, hooks in plans:
        try:
            ms = methods(mk, hooks)
        except AbsExc as e:
            r.ob("setup/" + who, None, str(e))
            continue
        total += len(ms)
        for name in ms:
            if name == "mass_func" and who == "BandStructure" or name == "figdfdE" and who == "Conductivity" or name.startswith("omegac") and "no field" in who:
                continue
            r.scenario("%s.%s" % (who, name), lambda it, a=(mk, name, who): one(it, *a), hooks=hooks)
            if name not in ARGS and (not who.endswith(")") or r.thorough):
                r.scenario("%s.%s (other arguments)" % (who, name), lambda it, a=(mk, name, who, True): one(it, *a), hooks=hooks)
    if total < 20:
        raise AnchorMissing("figure and diagnostic methods")

    # a computation does not change the settings it is made with, from its first run on
    SETS = {"BandStructure": ("a", "b", "c", "energy_scale", "band_params", "band_model", "band_name", "resolution", "res_xy", "res_z", "res_x", "res_y", "k_max", "number_of_bz",
                              "march_square", "parallel"),
            "Conductivity": ("Bamp", "Bphi", "Btheta", "T", "N_time", "rtol", "atol", "dfdE_cut_percent", "N_epsilon", "scattering_models", "scattering_params") + tuple(SC_PARAMS),
            "ADMR": ("Btheta_min", "Btheta_max", "Btheta_step", "Btheta_norm", "Bphi_array", "Btheta_array", "show_progress")}

    def settings(it, o, who, but=()):
        out = {}
        for n in SETS[who]:
            if n in but:
                continue
            v = o.attrs.get(n, o.attrs.get("_" + n))
            if v is not None:
                out[n] = snap(v)
        return out

    def computes(it, who, mk, calls):
        objs = mk(it)
        for name, args in calls:
            before = [(w, x, settings(it, x, w, but)) for w, x, but in objs]
            it.call(it.getattr(objs[0][1], name), list(args), {})
            for w, x, b in before:
                af = settings(it, x, w)
                for n in b:
                    res, p = same(b[n], af.get(n, snap(None)))
                    r.ob("settings/%s.%s:%s.%s" % (who, name, w, n), res, "%s.%s changes the setting '%s%s' of the %s" % (who, name, n, p, w), writer(x, n))
    for march in (False, True):
        for ortho in (True, False):
            r.scenario("settings band %s %s" % (march, ortho), lambda it, m=march, o=ortho: computes(it, "BandStructure", lambda i: [("BandStructure", band(i, m, o, run=False), ())],
                       [("runBandStructure", []), ("dos_epsilon_func", [])] + ([("mass_func", [])] if m else []) + [("doping", []), ("update_filling", []), ("discretize_fermi_surface", [])]))
    def mkc(i, m, B, fin):
        b = band(i, m)
        c = cond(i, b, B, fin)
        return [("Conductivity", c, ()), ("BandStructure", i.getattr(c, "bandObject"), ()), ("BandStructure", b, ())]
    for march, B, fin in ((False, True, False), (True, True, True), (False, False, True), (True, False, False)):
        r.scenario("settings transport %s %s %s" % (march, B, fin), lambda it, a=(march, B, fin): computes(it, "Conductivity", lambda i: mkc(i, *a),
                   [("runTransport", [])] + ([("omegac_tau_func", [])] if a[1] else []) + [("chambers_func", [])]))

    def mka(i):
        cs = [cond(i, band(i, tag="_%d" % j), tag="_%d" % j) for j in range(2)]
        return [("ADMR", admr(i, cs), ())] + [("Conductivity", c, ("Btheta", "Bphi")) for c in cs] + [("BandStructure", i.getattr(c, "bandObject"), ()) for c in cs]
    r.scenario("settings sweep", lambda it: computes(it, "ADMR", mka, [("runADMR", []), ("update_total_doping", [])]), hooks=SUMM)

    # fits: figures and exports leave member, data and results alone
    def fit(it, which, name):
        if which == "multi":
            o, _ = multi_fit(it)
            run(it, o, "compute_fitness")
        else:
            o, _ = one_fit(it, which)
            evaluate_fit(it, o, which)
        keep = ("member", "init_member", "bounds_dict", "ranges_dict", "data_dict", "params_dict", "rzz_data_matrix", "rhozz_data_matrix", "Bphi_array",
                "rzz_sim_dict", "rhozz_sim_dict", "phis_dict", "thetas_dict", "bounds", "normalized_data", "free_params_labels", "free_pars_name", "T_list", "folder")
        before = {n: snap(attr(it, o, n)) for n in keep if n in o.attrs}
        if not any(isinstance(v, FuncV) and n == name for c in o.cls.mro() for n, v in c.ns.items()):
            return
        it.call(it.getattr(o, name), [], {"fig_show": False, "fig_save": True} if name == "fig_compare" else {})
        for n in before:
            res, p = same(before[n], snap(attr(it, o, n)))
            r.ob("pure/%s fit.%s:%s" % (which, name, n), res, "%s of the %s fit changes '%s%s'" % (name, which, n, p), writer(o, n))
    for which in ("multi", "parallel", "series"):
        for name in ("fig_compare", "save_member_to_json"):
            r.scenario("%s fit.%s" % (which, name), lambda it, a=(which, name): fit(it, *a), hooks=SUMM)


# ------------------------------------------------------------------ C08
@check("C08", "Pairing analysis of the energy loop: after a finite-temperature run from any starting level the band's arrays must be term-for-term those of a discretization at the Fermi level; the per-energy records must equal those of a separate discretization at that energy, must not share storage, and must not depend on which other energies are in the grid.", floor=30)
def c08(r):
    def fs(it, B, march, level, neps):
        b = band(it, march)
        ref = {n: snap(attr(it, b, n)) for n in FS_ARRAYS + ("n", "p")}
        if level:
            run(it, b, "runBandStructure", epsilon=S("eps0", UE))
        o = cond(it, b, B, True, neps=neps)
        own = it.getattr(o, "bandObject")
        keep = {n: snap(attr(it, own, n)) for n in ("band_params", "energy_scale", "a", "b", "c", "resolution", "march_square", "k_max", "number_of_bz")}
        run(it, o)
        k = "%s%s N=%d%s" % ("square" if march else "cube", "" if B else " no field", neps, " from another level" if level else "")
        for n in ref:
            if n in FS_ARRAYS or n in ("n", "p"):
                res, p = same(ref[n], snap(attr(it, own, n)))
                r.ob("back/%s:%s" % (k, n), res, "after a finite-temperature run '%s%s' of the band is not that of the Fermi level" % (n, p), writer(own, n, CFILE),
                     deps=["T"])
        for n in keep:
            res, p = same(keep[n], snap(attr(it, own, n)))
            r.ob("settings/%s:%s" % (k, n), res, "a finite-temperature run changes '%s%s' of the band" % (n, p), writer(own, n, CFILE))
        # records
        grid = attr(it, o, "epsilon_array")
        for a, src in (("dos_k_epsilon", "dos_k"), ("dkf_epsilon", "dkf")):
            rec = attr(it, o, a)
            if not isinstance(rec, DictV):
                raise AnchorMissing("Conductivity." + a)
            r.ob("records/%s:%s" % (k, a), len(rec.d) == neps, "%d records of '%s' for %d energies" % (len(rec.d), a, neps), writer(o, a, CFILE))
            for i, (kk, v) in enumerate(rec.d.values()):
                sep = band(it, march, run=False)
                run(it, sep, "runBandStructure", epsilon=kk)
                res, p = same(snap(v), snap(attr(it, sep, src)))
                r.ob("record/%s:%s[%d]" % (k, a, i), res, "'%s' stored for an energy is not that of a discretization at that energy" % a, writer(o, a, CFILE), deps=["T"])
        # separate storage
        own_ids = {}
        for a in ("dos_k_epsilon", "dkf_epsilon", "kft_epsilon", "vft_epsilon", "t_o_tau_epsilon"):
            rec = attr(it, o, a)
            if not isinstance(rec, DictV):
                continue
            for i, (kk, v) in enumerate(rec.d.values()):
                if isinstance(v, Arr):
                    root = id(v.root())
                    other = own_ids.get(root)
                    r.ob("storage/%s:%s" % (k, a), other is None, "the records of '%s' for two energies are one array" % a, writer(o, a, CFILE))
                    own_ids[root] = (a, i)
        return o
    for B in (True, False):
        for march in (False, True):
            for level in (False, True):
                for neps in (2, 5) if r.thorough else (3,):
                    r.scenario("run %s %s %s %s" % (B, march, level, neps), lambda it, a=(B, march, level, neps): fs(it, *a))

    # records do not depend on the other energies of the grid
    def indep(it, B, n1, n2):
        b = band(it)
        o1, o2 = cond(it, b, B, True, neps=n1), cond(it, b, B, True, neps=n2)
        run(it, o1)
        run(it, o2)
        hits = 0
        for a in ("dos_k_epsilon", "dkf_epsilon", "kft_epsilon", "vft_epsilon", "t_o_tau_epsilon"):
            x, y = attr(it, o1, a), attr(it, o2, a)
            if not isinstance(x, DictV) or not isinstance(y, DictV):
                continue
            for kk in x.d:
                if kk in y.d:
                    hits += 1
                    res, p = same(snap(x.d[kk][1]), snap(y.d[kk][1]))
                    r.ob("independent/%s N=%d,%d%s" % (a, n1, n2, "" if B else " no field"), res,
                         "'%s' stored for an energy depends on which other energies are in the grid" % a, writer(o2, a, CFILE))
        r.ob("independent/common energies N=%d,%d" % (n1, n2), True if hits else None, "no common energies")
    for B in (True, False):
        for n1, n2 in ((3, 5), (4, 7)) if r.thorough else ((3, 5),):
            r.scenario("independent %s %d %d" % (B, n1, n2), lambda it, a=(B, n1, n2): indep(it, *a))
