"""History rules: what an object holds after a sequence of public operations is
what a fresh object with the same settings would hold."""
from registry import check
from scen import *
from util import *
import terms as T
from terms import PI, cosp, sinp

CFILE = "cuprates_transport/conductivity.py"


def b_spec(it, o):
    """(Bx, By, Bz) from the current public settings"""
    A = term(it.getattr(o, "Bamp"))
    th = term(it.getattr(o, "Btheta")) * PI / P(180)
    ph = term(it.getattr(o, "Bphi")) * PI / P(180)
    return [A * sinp(th) * cosp(ph), A * sinp(th) * sinp(ph), A * cosp(th)]


def ob_field(r, it, o, what):
    bv = D_(it.getattr(o, "B_vector"))
    if r.ob("field/shape:" + what, shape_is(bv, (3,)), "B_vector has shape %s after %s" % (bv and shows(bv.vis()), what), CFILE) is not True:
        return
    for i, w in enumerate(b_spec(it, o)):
        r.eq("field/%s:%s" % ("xyz"[i], what), comp(bv, i), w, "field component %s after %s is not Bamp*(sin th cos ph, sin th sin ph, cos th)" % ("xyz"[i], what), writer(o, "_B_vector", CFILE))


FRESHV = {"Bamp": UT, "Bphi": unit(deg=1), "Btheta": unit(deg=1)}


@check("C02", "Typestate of the derived settings: every public route that changes the field amplitude/angles, the temperature, the number of energies or the energy cut is analysed from every order of assignment; after it, the field vector's term must equal Bamp(sin th cos ph, sin th sin ph, cos th) of the settings then in force and the energy grid's term must equal the grid of a freshly built object with those settings.", floor=12)
def c02(r):
    import itertools

    def base(it, B=True, Tt=False):
        bo = band(it, run=False)
        return bo, cond(it, bo, B, Tt)

    def ctor(it):
        _, o = base(it)
        ob_field(r, it, o, "construction")
        o2 = cond(it, band(it, run=False), False)
        ob_field(r, it, o2, "construction with zero field")
    r.scenario("constructed", ctor)
    for seq in itertools.permutations(("Bamp", "Bphi", "Btheta"), 2):
        def f(it, seq=seq):
            _, o = base(it)
            for k, n in enumerate(seq):
                it.setattr(o, n, S("%s_new%d" % (n, k), FRESHV[n]))
                ob_field(r, it, o, "assigning " + n)
        r.scenario("assign " + "+".join(seq), f)
    if r.thorough:
        for seq in itertools.product(("Bamp", "Bphi", "Btheta"), repeat=3):
            def f(it, seq=seq):
                _, o = base(it)
                for k, n in enumerate(seq):
                    it.setattr(o, n, S("%s_new%d" % (n, k), FRESHV[n]))
                ob_field(r, it, o, "assigning " + "+".join(seq))
            r.scenario("assign " + "+".join(seq), f)

    def zero(it):
        _, o = base(it)
        it.setattr(o, "Bamp", 0)
        ob_field(r, it, o, "assigning zero Bamp")
        it.setattr(o, "Bamp", S("Bback", UT))
        ob_field(r, it, o, "assigning Bamp after zero")
    r.scenario("zero field", zero)

    def direct(it):
        _, o = base(it)
        try:
            it.setattr(o, "B_vector", it.call(it.need("admr", "np") if False else PyArr(it), [], {}))
        except AbsExc:
            pass
        ob_field(r, it, o, "a direct assignment of the field vector")
    r.scenario("direct", direct)

    def copyd(it):
        bo, o = base(it)
        it.setattr(o, "T", 0)
        ob_field(r, it, o, "assigning T")
        it.setattr(o, "N_epsilon", 6)
        ob_field(r, it, o, "assigning N_epsilon")
    r.scenario("other settings", copyd)

    # energy grid
    routes = {
        "T": (S("T_new", unit(K=1), True),),
        "N_epsilon": (6,),
        "dfdE_cut_percent": (S("cut_new", DLESS, True),),
    }

    def grid(it, seq, Tt):
        bo = band(it, run=False)
        o = cond(it, bo, True, Tt)
        kw = {}
        for n in seq:
            v = routes[n][0]
            it.setattr(o, n, v)
            kw[n] = v
        fresh = cond(it, bo, True, Tt, **kw)
        a, b = D_(o.attrs.get("epsilon_array")), D_(fresh.attrs.get("epsilon_array"))
        if a is None and b is None:
            raise AnchorMissing("Conductivity.epsilon_array")
        w = "+".join(seq)
        if a is None or b is None:
            r.ob("grid/present:" + w, False, "energy grid missing after assigning " + w, CFILE)
            return
        s = shape_is(a, b.vis()) if b.vis() is not None else None
        r.ob("grid/length:" + w, s, "energy grid has %s points after assigning %s, a fresh object has %s" % (shows(a.vis()), w, shows(b.vis())), CFILE)
        if s is True:
            r.eq("grid/values:" + w, a.term, b.term, "energy grid after assigning %s differs from the grid of a fresh object with the same settings" % w, CFILE)
    seqs = [("T",), ("N_epsilon",), ("dfdE_cut_percent",)] + list(itertools.permutations(routes, 2))
    if r.thorough:
        seqs += list(itertools.permutations(routes, 3)) + [("T", "N_epsilon", "T")]
    for seq in seqs:
        r.scenario("grid " + "+".join(seq), lambda it, seq=seq: grid(it, seq, True))
    # settings changed there and back, with numbers: nothing computed for an
    # earlier combination of settings may come back with a later one
    walks = [(("T", 25), ("N_epsilon", 6), ("T", 10), ("N_epsilon", 8), ("T", 25)),
             (("T", 25), ("dfdE_cut_percent", 0.01), ("T", 10), ("dfdE_cut_percent", 0.02), ("T", 25)),
             (("N_epsilon", 6), ("T", 25), ("N_epsilon", 8), ("T", 10), ("N_epsilon", 6)),
             (("dfdE_cut_percent", 0.01), ("T", 25), ("dfdE_cut_percent", 0.02), ("T", 10), ("dfdE_cut_percent", 0.01)),
             (("N_epsilon", 6), ("dfdE_cut_percent", 0.01), ("N_epsilon", 8), ("dfdE_cut_percent", 0.02), ("N_epsilon", 6)),
             (("dfdE_cut_percent", 0.01), ("N_epsilon", 6), ("dfdE_cut_percent", 0.02), ("N_epsilon", 8), ("dfdE_cut_percent", 0.01)),
             (("T", 25), ("T", 0), ("N_epsilon", 6), ("T", 25), ("T", 0), ("dfdE_cut_percent", 0.01), ("T", 25)),
             (("T", 25), ("T", 0), ("T", 25))]

    def walk(it, seq, Tt):
        bo = band(it, run=False)
        o = cond(it, bo, True, Tt)
        kw = {}
        for k, (n, v) in enumerate(seq):
            it.setattr(o, n, v)
            kw[n] = v
            if kw.get("T", Tt) == 0:
                continue
            fresh = cond(it, bo, True, Tt, **kw)
            a, b = D_(o.attrs.get("epsilon_array")), D_(fresh.attrs.get("epsilon_array"))
            w = "+".join("%s=%s" % x for x in seq[:k + 1])
            if b is None:
                raise AnchorMissing("Conductivity.epsilon_array")
            s = a is not None and shape_is(a, b.vis())
            r.ob("walk/length:" + w, s, "energy grid has %s points after %s, a fresh object has %s" % (a and shows(a.vis()), w, shows(b.vis())), CFILE)
            if s is True:
                r.eq("walk/values:" + w, a.term, b.term, "energy grid after %s differs from the grid of a fresh object with the same settings" % w, CFILE)
    for q, seq in enumerate(walks):
        r.scenario("walk %d" % q, lambda it, seq=seq: walk(it, seq, True))

    def fwalk(it, seq):
        _, o = base(it)
        for k, (n, v) in enumerate(seq):
            it.setattr(o, n, v)
            ob_field(r, it, o, "+".join("%s=%s" % x for x in seq[:k + 1]))
    for q, seq in enumerate([
            (("Bamp", 45), ("Btheta", 30), ("Bamp", 20), ("Btheta", 60), ("Bamp", 45)),
            (("Btheta", 30), ("Bphi", 15), ("Btheta", 60), ("Bphi", 45), ("Btheta", 30)),
            (("Bphi", 15), ("Bamp", 45), ("Bphi", 45), ("Bamp", 20), ("Bphi", 15)),
            (("Bamp", 0), ("Btheta", 30), ("Bphi", 45), ("Bamp", 45), ("Bamp", 0), ("Bamp", 20)),
            (("Btheta", -30), ("Bphi", 0), ("Btheta", 0), ("Bphi", -45), ("Btheta", 90), ("Btheta", 180), ("Bphi", 360), ("Btheta", 400))]):
        r.scenario("field walk %d" % q, lambda it, seq=seq: fwalk(it, seq))
    r.scenario("grid from T=0", lambda it: grid(it, ("T",), False))
    r.scenario("grid from T=0 N", lambda it: grid(it, ("N_epsilon", "T"), False))


def PyArr(it):
    return PyV(lambda it_, a, k: Arr(Data(((3,),), app("junk", ix(0)), unit(T=1))), "array")


# ------------------------------------------------------------------ C01
BFILE = "cuprates_transport/bandstructure.py"
FS_RESULTS = ("kf", "vf", "mass", "dkf", "dks", "dkz", "dos_k", "dos_epsilon", "p", "n", "number_of_points_per_kz_list")
FS_ARRAYS = ("kf", "vf", "dkf", "dks", "dkz", "dos_k", "number_of_points_per_kz_list")


def full_band(it, march, ortho, tag=""):
    o = band(it, march, ortho, tag=tag)
    if march:
        run(it, o, "mass_func")
    run(it, o, "dos_epsilon_func")
    return o


def compare_objects(r, it, key, got, want, names, msg):
    """got holds the same public results as want"""
    for n in names:
        a, b = attr(it, got, n), attr(it, want, n)
        res, p = same(snap(a), snap(b))
        if res is False:
            r.ob(key + ":" + n, False, "%s: '%s%s' is\n    %s\n  instead of\n    %s" % (msg, n, p, brief(a), brief(b)), writer(got, n, BFILE), it.deps(a) ^ it.deps(b))
        else:
            r.ob(key + ":" + n, res, "not comparable")


def brief(v):
    s = repr(v)
    return s if len(s) < 260 else s[:170] + " ... " + s[-80:]


def param_routes(it):
    new = S("t_new", DLESS)

    def r_item(o):
        it.setitem(o, "t", new)
        return {"t": new}

    def r_method(o):
        run(it, o, "set_band_param", "t", new)
        return {"t": new}

    def r_dict(o):
        d = {k: S(k + "_new", DLESS) for k in PARAMS3}
        it.setattr(o, "band_params", D(**d))
        return d

    def r_scale(o):
        it.setattr(o, "energy_scale", S("E0_new", UE, True))
        return {"energy_scale": S("E0_new", UE, True)}

    def r_mu(o):
        it.setitem(o, "mu", S("mu_new", DLESS))
        return {"mu": S("mu_new", DLESS)}
    return {"item assignment": r_item, "set_band_param": r_method, "band_params assignment": r_dict,
            "energy_scale assignment": r_scale, "mu item assignment": r_mu}


@check("C01", "Typestate of computed results: for every public way of changing a band parameter or the energy scale, and every discretization mode, the object is discretized, changed, and inspected: each documented result must be empty or recomputed (no dependence on the replaced parameter value), and after the next run every result must equal, term for term, that of an object built with the new values.", floor=40)
def c01(r):
    modes = [(False, True), (True, False), (True, True)]
    names = list(param_routes(Interp()))
    for march, ortho in modes:
        for route in names:
            def f(it, march=march, ortho=ortho, route=route):
                o = full_band(it, march, ortho)
                before = {n: attr(it, o, n) for n in public(o)}
                changed = param_routes(it)[route](o)
                mode = "square" if march else "cube"
                old = {k if k != "energy_scale" else "E0" for k in changed}
                results = [n for n in FS_RESULTS if n in o.attrs]
                if len(results) < 5:
                    raise AnchorMissing("documented Fermi-surface results of BandStructure")
                for n in results:
                    v = attr(it, o, n)
                    stale = not is_empty(v) and bool(it.deps(v) & old)
                    r.ob("stale/%s/%s:%s" % (route, mode, n), not stale,
                         "after %s the object still holds '%s' computed with the previous value" % (route, n), writer(o, n, BFILE), it.deps(v) & old)
                # the next run is that of a fresh object
                run(it, o, "runBandStructure")
                over = {}
                bp = {k: S(k, DLESS) for k in PARAMS3}
                bp.update({k: v for k, v in changed.items() if k in bp})
                if "energy_scale" in changed:
                    over["energy_scale"] = changed["energy_scale"]
                fresh = band(it, march, ortho, band_params=D(**bp), **over)
                compare_objects(r, it, "rerun/%s/%s" % (route, mode), o, fresh, ("kf", "vf", "dkf", "dos_k", "n", "p"),
                                "after %s and a new run" % route)
            r.scenario("change by %s (march_square=%s, ortho=%s)" % (route, march, ortho), f)

    # changes made by the solvers for the chemical potential
    def solve(it, how):
        o = full_band(it, False, True)
        others = {n: o.attrs.get(n) for n in o.attrs}
        if how == "method":
            run(it, o, "set_mu_to_doping", S("p_target", DLESS))
        else:
            f = it.need("bandstructure", "set_mu_to_doping")
            it.call(f, [L(o), S("p_target", DLESS)], {})
        mu = it.getitem(o, "mu") if True else None
        if "mu" in it.deps(mu):
            r.ob("solver/%s:changes mu" % how, None, "mu unchanged")
            return
        for n in FS_RESULTS:
            if n in o.attrs:
                v = attr(it, o, n)
                stale = not is_empty(v) and "mu" in it.deps(v)
                r.ob("solver/%s:%s" % (how, n), not stale, "after set_mu_to_doping (%s) the object still holds '%s' of the previous chemical potential" % (how, n), writer(o, n, BFILE), ["mu"])
        # n and p, if kept, belong to the final mu
        for n in ("n", "p"):
            v = attr(it, o, n)
            if not is_empty(v):
                d = it.deps(mu) - {"p_target"}
                r.ob("solver/%s:final %s" % (how, n), bool(it.deps(v) & it.deps(mu)),
                     "'%s' after set_mu_to_doping is not that of the chemical potential found" % n, writer(o, n, BFILE))
        run(it, o, "runBandStructure")
        bp = {k: S(k, DLESS) for k in PARAMS3}
        bp["mu"] = mu
        fresh = band(it, False, True, band_params=D(**bp))
        compare_objects(r, it, "solver/%s/rerun" % how, o, fresh, ("kf", "vf", "dkf", "dos_k", "n", "p"), "after set_mu_to_doping and a new run")
    r.scenario("set_mu_to_doping method", lambda it: solve(it, "method"))
    r.scenario("set_mu_to_doping function", lambda it: solve(it, "function"))

    def reject(it):
        o = full_band(it, False, True)
        s0 = {n: snap(attr(it, o, n)) for n in public(o)}
        k0 = sorted(str(x) for x in it.getattr(o, "band_params").d)
        it.setitem(o, "not_a_parameter", S("x", DLESS))
        r.ob("reject/keys", sorted(str(x) for x in it.getattr(o, "band_params").d) == k0, "assigning an unknown parameter name adds it", BFILE)
    r.scenario("unknown parameter name", reject)


# ------------------------------------------------------------------ C03
TRANSPORT = ("sigma", "alpha", "beta", "kft", "vft", "tau_tot", "t_o_tau", "v_product", "time_max", "dtime",
             "time_array", "dtime_array", "gamma_tot_max", "gamma_tot_min", "dos_k_epsilon", "dkf_epsilon",
             "kft_epsilon", "vft_epsilon", "t_o_tau_epsilon", "epsilon_array", "B_vector")


def uninit(v):
    """does the value contain entries that were never written?"""
    out = []
    for p, x in reach(v).values():
        if isinstance(x, Arr) and "uninit" in x.data.deps:
            t = x.data.term
            if t is not None and "uninit" in T.opaque_names(t):
                out.append(p)
    return out


def setting_changes(it):
    """name -> (start with B?, finite T?, [(attribute, value)...])"""
    bn, tn = S("Bamp_n", UT, True), S("T_n", unit(K=1), True)
    return {
        "new field amplitude": (True, False, [("Bamp", bn)]),
        "field switched off": (True, False, [("Bamp", 0)]),
        "field switched on": (False, False, [("Bamp", bn)]),
        "new angles": (True, False, [("Bphi", S("phn", unit(deg=1))), ("Btheta", S("thn", unit(deg=1)))]),
        "heated": (True, False, [("T", tn)]),
        "cooled to zero": (True, True, [("T", 0)]),
        "cooled to zero, no field": (False, True, [("T", 0)]),
        "new temperature": (False, True, [("T", tn)]),
        "new number of energies": (False, True, [("N_epsilon", 3)]),
        "new cut": (False, True, [("dfdE_cut_percent", S("cut_n", DLESS, True))]),
        "new time steps": (True, False, [("N_time", S("N_time_n", DLESS, True, "i"))]),
        "new rates": (True, False, [("scattering_params", "SC")]),
        "heated, field off": (True, False, [("T", tn), ("Bamp", 0)]),
        "cooled, field on": (False, True, [("Bamp", bn), ("T", 0)]),
        "nothing": (True, False, []),
        "nothing, finite T": (True, True, []),
    }


def cond_like(it, bo, B, fin, changes):
    over = {}
    for n, v in changes:
        over[n] = sc_params("_n") if v == "SC" else v
    return cond(it, bo, B, fin, **over)


@check("C03", "History independence of the transport run: an object that has already computed transport in one configuration (field on/off x temperature zero/finite, several angles, rates and grids) is reconfigured through its public settings and run again; every documented result must be term-for-term equal to that of a freshly built object, and no tensor may contain an entry that no assignment ever wrote.", floor=100)
def c03(r):
    names = list(setting_changes(Interp()))
    for march in ((False, True) if r.thorough else (False,)):
        for nm in names:
            def f(it, nm=nm, march=march):
                B, fin, changes = setting_changes(it)[nm]
                bo = band(it, march, True)
                o = cond(it, bo, B, fin)
                run(it, o)
                if march:
                    run(it, o, "omegac_tau_func") if B else None
                for n, v in changes:
                    it.setattr(o, n, sc_params("_n") if v == "SC" else v)
                run(it, o)
                fresh = cond_like(it, bo, B, fin, changes)
                run(it, fresh)
                present = [n for n in TRANSPORT if attr(it, fresh, n) is not None]
                if len(present) < 10:
                    raise AnchorMissing("documented transport results")
                compare_objects(r, it, "rerun/" + nm, o, fresh, present, "second run after '%s'" % nm)
                for who, x in (("second run", o), ("first run", fresh)):
                    for n in ("sigma", "alpha", "beta", "v_product", "kft", "vft", "t_o_tau", "tau_tot"):
                        v = attr(it, x, n)
                        u = uninit(v)
                        r.ob("written/%s/%s:%s" % (nm, who, n), not u, "'%s' contains values that were never computed after a %s (%s)" % (n, who, nm), writer(x, n, CFILE))
            r.scenario(nm + (" (square)" if march else ""), f)

    # changing the band parameters of the object the transport owns, then rediscretizing
    def bandchange(it, fin):
        bo = band(it, False, True)
        o = cond(it, bo, True, fin)
        run(it, o)
        own = it.getattr(o, "bandObject")
        it.setitem(own, "t", S("t_new", DLESS))
        run(it, own, "runBandStructure")
        run(it, o)
        bp = {k: S(k, DLESS) for k in PARAMS3}
        bp["t"] = S("t_new", DLESS)
        fresh = cond(it, band(it, False, True, band_params=D(**bp)), True, fin)
        run(it, fresh)
        compare_objects(r, it, "rerun/new band parameter", o, fresh, [n for n in TRANSPORT if attr(it, fresh, n) is not None], "second run after a new band parameter")
    r.scenario("new band parameter", lambda it: bandchange(it, False))
    r.scenario("new band parameter, finite T", lambda it: bandchange(it, True))

    # band-derived diagnostics after a change
    def oc(it):
        bo = band(it, True, True)
        o = cond(it, bo, True, False)
        run(it, o)
        run(it, o, "omegac_tau_func")
        it.setattr(o, "Bamp", S("Bamp_n", UT, True))
        run(it, o)
        run(it, o, "omegac_tau_func")
        fresh = cond(it, bo, True, False, Bamp=S("Bamp_n", UT, True))
        run(it, fresh)
        run(it, fresh, "omegac_tau_func")
        compare_objects(r, it, "rerun/cyclotron", o, fresh, ("omegac_tau_k",), "second cyclotron evaluation")
    r.scenario("cyclotron", oc)


# ------------------------------------------------------------------ C04
@check("C04", "Strong-update analysis of the discretization: after every history of discretizations (mode, resolution, energy level, lattice symmetry, slices with no contour) each Fermi-surface array and per-slice count must equal, term for term, that of an object that was only ever discretized in the last configuration, with all arrays referring to the same points.", floor=40)
def c04(r):
    def hist(it, key, first, last, ortho=True, level=None, contours=None):
        o = band(it, first, ortho)
        if level is not None:
            run(it, o, "runBandStructure", epsilon=level)
        it.setattr(o, "march_square", last)
        run(it, o, "runBandStructure")
        fresh = band(it, last, ortho)
        cmp_fs(it, key, o, fresh, last)

    def cmp_fs(it, key, o, fresh, last):
        names = [n for n in FS_ARRAYS if n in fresh.attrs and fresh.attrs[n] is not None]
        if len(names) < 3:
            raise AnchorMissing("documented Fermi-surface arrays")
        compare_objects(r, it, "rediscretized/" + key, o, fresh, names, "rediscretization (%s)" % key)
    for first in (False, True):
        for last in (False, True):
            for ortho in (False, True):
                key = "%s->%s%s" % (("cube", "square")[first], ("cube", "square")[last], "" if ortho else " tetragonal")
                r.scenario(key, lambda it, a=(key, first, last, ortho): hist(it, *a))
                key2 = key + " via another level"
                r.scenario(key2, lambda it, a=(key2, first, last, ortho): hist(it, *a, level=S("eps1", UE)))

    def resol(it, march):
        o = band(it, march, True)
        it.setattr(o, "resolution", L(15, 17, 5))
        run(it, o, "runBandStructure")
        fresh = band(it, march, True, res=(15, 17, 5))
        cmp_fs(it, "new resolution " + ("square" if march else "cube"), o, fresh, march)
    r.scenario("resolution cube", lambda it: resol(it, False))
    r.scenario("resolution square", lambda it: resol(it, True))

    def repeat(it, march):
        o = band(it, march, True)
        run(it, o, "runBandStructure")
        run(it, o, "discretize_fermi_surface")
        cmp_fs(it, "repeated " + ("square" if march else "cube"), o, band(it, march, True), march)
    r.scenario("repeated cube", lambda it: repeat(it, False))
    r.scenario("repeated square", lambda it: repeat(it, True))

    def lattice(it, march, n, direct):
        """one setting (a lattice constant, and with it possibly the symmetry) changes between two discretizations"""
        o = band(it, march, not n.endswith("tetragonal"), run=not direct)
        m = n.split()[0]
        step = "discretize_fermi_surface" if direct else "runBandStructure"
        fresh = band(it, march, True, run=False)
        lv = {}
        if direct:
            run(it, o, step)
        for x in (o, fresh):
            if m in "abc":
                it.setattr(x, m, S("lat_new", unit(Ang=1), True))
            elif m == "energy_scale":
                it.setattr(x, m, S("E_new", UE, True))
            elif m == "k_max":
                it.setattr(x, m, L(S("kx_new", DLESS, True), S("ky_new", DLESS, True), S("kz_new", DLESS, True)))
            elif m == "resolution":
                it.setattr(x, m, L(15, 17, 5))
            elif m == "level":
                lv = {"epsilon": S("eps1", UE)}
            else:
                it.setitem(x, m, S(m + "_new", DLESS))
        run(it, o, step, **lv)
        run(it, fresh, step, **lv)
        cmp_fs(it, "new %s %s%s" % (n, "square" if march else "cube", ", discretized only" if direct else ""), o, fresh, march)
    for march in (False, True):
        for n in ("a", "b", "c", "b tetragonal"):
            r.scenario("setting %s %s" % (n, march), lambda it, x=(march, n, False): lattice(it, *x))
        for n in ("a", "b", "c", "energy_scale", "mu", "tz", "k_max", "resolution", "level"):
            r.scenario("setting %s %s, discretized only" % (n, march), lambda it, x=(march, n, True): lattice(it, *x))

    # slices without any contour, in any position, after another discretization
    for ortho in (True, False):
        for pat in ([0, 1, 2], [1, 0, 2], [2, 1, 0], [0, 0, 1]) if r.thorough or ortho else ([0, 1, 2], [1, 0, 1]):
            for prev in (False, True):
                def empty(it, ortho=ortho, pat=pat, prev=prev):
                    nm = "contours per slice %s%s%s" % (pat, "" if ortho else " tetragonal", " after a previous run" if prev else "")
                    if prev:
                        it.config["contours"] = lambda k: 2
                        o = band(it, True, ortho)
                    else:
                        o = band(it, True, ortho, run=False)
                    base = it.counter.get("@contour", 0)
                    it.config["contours"] = seq_contours(pat)
                    run(it, o, "discretize_fermi_surface")
                    kf, dk = D_(attr(it, o, "kf")), None
                    if kf is None or kf.vis() is None:
                        r.ob("slices/shape:" + nm, None, "kf shape unknown")
                        return
                    n = kf.vis()[1]
                    for a in ("dkf", "dks", "dkz", "dos_k"):
                        d = D_(attr(it, o, a))
                        r.ob("slices/%s:%s" % (a, nm), None if d is None or d.vis() is None else shape_is(d, (n,)),
                             "'%s' has %s entries for %s Fermi-surface points when some slices have no contour" % (a, d and shows(d.vis()), brief(n)), writer(o, a, BFILE))
                    c = attr(it, o, "number_of_points_per_kz_list")
                    if isinstance(c, ListV):
                        r.ob("slices/count:" + nm, len(c.items) == len(pat), "%d per-slice counts for %d slices" % (len(c.items), len(pat)), writer(o, "number_of_points_per_kz_list", BFILE))
                        tot = P(0)
                        for i, x in enumerate(c.items):
                            tx = term(x)
                            if pat[i] == 0:
                                r.eq("slices/empty count:%s[%d]" % (nm, i), tx, ZERO, "the count of a slice without contour is not zero", BFILE)
                            tot = tot + tx if tot is not None and tx is not None else None
                        r.eq("slices/total:" + nm, tot, P(n), "the per-slice counts do not add up to the number of points", BFILE)
                r.scenario("no contour %s %s %s" % (ortho, pat, prev), empty)


def seq_contours(pat):
    st = {"i": 0}

    def f(k=None):
        v = pat[st["i"] % len(pat)]
        st["i"] += 1
        return v
    return f
