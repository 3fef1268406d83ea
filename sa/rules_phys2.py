"""Fermi-surface, filling, shape, angle-sweep and finite-temperature formula rules."""
from registry import check
from scen import *
from util import *
from summ import SUMM
from spec import ref, val
from rules_state import brief, BFILE, CFILE
from rules_phys import bobj, eqv, model_names, kpoints, AFILE, SFILE
import terms as T

# ------------------------------------------------------------------ C15
SQUARE = """
tet = o.a == o.b
lo = 0 if tet else -1
n = o.res_xy_rough if tet else 2*o.res_xy_rough
gx = np.linspace(lo * o.k_max[0]/o.a, o.k_max[0]/o.a, n)
gy = np.linspace(lo * o.k_max[1]/o.b, o.k_max[1]/o.b, n)
gz = np.linspace(-o.k_max[2]/o.c, o.k_max[2]/o.c, o.resolution[2])
hx, hy, hz = gx[1]-gx[0], gy[1]-gy[0], gz[1]-gz[0]
X, Y = np.meshgrid(gx, gy, indexing='ij')
px, py, pz, w, ds, dz, counts = [], [], [], [], [], [], []
for z in gz:
    cnt = 0
    for con in measure.find_contours(o.energy_func(X, Y, z), eps):
        kx = gx[0] + con[:, 0]*hx
        ky = gy[0] + con[:, 1]*hy
        s = np.cumsum(np.append(0, np.sqrt(np.diff(kx)**2 + np.diff(ky)**2)))
        N = int(max(np.ceil(np.max(s)*o.a/(pi/o.resolution[0])), 4))
        q = np.linspace(0, np.max(s), N)
        qx = np.interp(q, s, kx)[:-1]
        qy = np.interp(q, s, ky)[:-1]
        one = np.ones_like(qx)
        images = [(qx, qy), (qy, -qx), (-qx, -qy), (-qy, qx)] if tet else [(qx, qy)]
        for ax, ay in images:
            px.append(ax); py.append(ay); pz.append(z*one)
            w.append((q[1]-q[0])*hz*one); ds.append((q[1]-q[0])*one); dz.append(hz*one)
            cnt += N - 1
    counts.append(cnt)
kf = np.vstack([np.concatenate(px), np.concatenate(py), np.concatenate(pz)])
dkf = np.concatenate(w)
dks = np.concatenate(ds)
dkz = np.concatenate(dz)
"""

CUBE = """
gx = np.linspace(-o.k_max[0]/o.a, o.k_max[0]/o.a, o.resolution[0])
gy = np.linspace(-o.k_max[1]/o.b, o.k_max[1]/o.b, o.resolution[1])
gz = np.linspace(-o.k_max[2]/o.c, o.k_max[2]/o.c, o.resolution[2])
X, Y, Z = np.meshgrid(gx, gy, gz, indexing='ij')
v, f, _, _ = measure.marching_cubes(o.energy_func(X, Y, Z), level=eps, spacing=(gx[1]-gx[0], gy[1]-gy[0], gz[1]-gz[0]), method='lewiner')
v = v + np.array([gx[0], gy[0], gz[0]])
tri = v[f]
nv = np.cross(tri[:, 1, :] - tri[:, 0, :], tri[:, 2, :] - tri[:, 1, :])
area = np.sqrt(nv[:, 0]**2 + nv[:, 1]**2 + nv[:, 2]**2) / 2
dkf = np.bincount(f.flatten(), np.repeat(area, 3) / 3)
kf = v.T
"""

SURF = """
vx, vy, vz = o.velocity_func(o.kf[0], o.kf[1], o.kf[2])
vf = np.array([vx, vy, vz])
dos = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
"""


@check("C15", "Formula conformity of the discretization: the points, velocities, weights, path lengths and per-slice counts of both marching algorithms are compared in normal form with an independent reconstruction (contour indices mapped through the sampled grid, arc length in reciprocal space, equally spaced points, quarter turns for tetragonal lattices; triangle areas shared by their corners), for every lattice symmetry, energy level, k-range and resolution scenario; the contoured field and the level handed to the marching algorithm are compared separately.",
       floor=40)
def c15(r):
    def one(it, march, ortho, eps, kmax, res, model, pat=None):
        from rules_state import seq_contours
        kw = {}
        if kmax:
            kw["kmax"] = L(S("kmx", DLESS, True), S("kmy", DLESS, True) if ortho or not march else S("kmx", DLESS, True), S("kmz", DLESS, True))
        if model == 2:
            kw.update(model=MODEL2, params=PARAMS2)
        o = band(it, march, ortho, res=res, run=False, **kw)
        e = S("eps", UE) if eps == "eps" else None
        args = {} if e is None else {"epsilon": e}
        if eps == "kw0":
            args = {"epsilon": 0}
        if pat:
            it.config["contours"] = seq_contours(pat)
        run(it, o, "discretize_fermi_surface", **args)
        if pat:
            it.config["contours"] = seq_contours(pat)
        k = ("contours %s " % (pat,) if pat else "") + "%s %s%s%s%s%s" % ("square" if march else "cube", "orthorhombic" if ortho else "tetragonal", " level" if eps == "eps" else "", " k range" if kmax else "", "" if res == (21, 23, 3) else " %s" % (res,), " 2D" if model == 2 else "")
        ns = ref(it, SQUARE if march else CUBE, o=o, eps=e if e is not None else 0)
        w = lambda n: writer(o, n, BFILE)
        eqv(r, it, "points/" + k, attr(it, o, "kf"), ns["kf"], "the points of the surface (%s) are not the contour points of the sampled grid" % k, w("kf"))
        eqv(r, it, "weights/" + k, attr(it, o, "dkf"), ns["dkf"], "the surface elements (%s) are not the areas belonging to the points" % k, w("dkf"))
        if march:
            eqv(r, it, "dks/" + k, attr(it, o, "dks"), ns["dks"], "dks (%s) is not the path length between neighbouring points" % k, w("dks"))
            eqv(r, it, "dkz/" + k, attr(it, o, "dkz"), ns["dkz"], "dkz (%s) is not the distance of the slices" % k, w("dkz"))
            c = attr(it, o, "number_of_points_per_kz_list")
            if isinstance(c, ListV):
                g, h = c.items, ns["counts"].items
                r.ob("slices/" + k, len(g) == len(h), "%d counts for %d slices (%s)" % (len(g), len(h), k), w("number_of_points_per_kz_list"))
                for i, (x, y) in enumerate(zip(g, h)):
                    r.eq("count %d/%s" % (i, k), term(x), term(y), "the count of slice %d (%s) is not the number of its points" % (i, k), w("number_of_points_per_kz_list"))
        s = ref(it, SURF, o=o)
        eqv(r, it, "velocities/" + k, attr(it, o, "vf"), s["vf"], "vf (%s) is not the velocity at kf" % k, w("vf"))
        eqv(r, it, "dos/" + k, attr(it, o, "dos_k"), s["dos"], "dos_k (%s) is not 1/(hbar |v|) of the points" % k, w("dos_k"))
        # fields handed to the marching algorithm
        ev = [x for x in it.events if x["kind"] == ("find_contours" if march else "marching_cubes")]
        if not ev:
            raise AnchorMissing("contouring of the dispersion (find_contours / marching_cubes)")
        run(it, o, "dos_epsilon_func")
        d = ref(it, "x = 2 / (2*pi)**3 * np.sum(o.dkf / ANG**2 * o.dos_k)", o=o)
        eqv(r, it, "integrated dos/" + k, attr(it, o, "dos_epsilon"), d["x"], "dos_epsilon (%s) is not the integral of dos_k" % k, w("dos_epsilon"))
        if march:
            run(it, o, "mass_func")
            d = ref(it, "x = hbar / (2*pi) / o.resolution[2] * np.sum(o.dks / ANG / sqrt(o.vf[0]**2 + o.vf[1]**2)) / electron_mass", o=o)
            eqv(r, it, "mass/" + k, attr(it, o, "mass"), d["x"], "the cyclotron mass (%s) is not hbar/(2 pi) times the mean path integral of 1/v" % k, w("mass"))
    for march in (False, True):
        for ortho in (True, False):
            for eps in ("none", "eps", "kw0"):
                r.scenario("surface %s %s %s" % (march, ortho, eps), lambda it, a=(march, ortho, eps, False, (21, 23, 3), 3): one(it, *a))
            r.scenario("surface %s %s range" % (march, ortho), lambda it, a=(march, ortho, "eps", True, (21, 23, 3), 3): one(it, *a))
            r.scenario("surface %s %s even" % (march, ortho), lambda it, a=(march, ortho, "none", False, (30, 20, 4), 3): one(it, *a))
            r.scenario("surface %s %s 2D" % (march, ortho), lambda it, a=(march, ortho, "none", False, (25, 21, 3), 2): one(it, *a))
    for n in (1, 3):
        r.scenario("square with %d contours" % n, lambda it: one(it, True, True, "none", False, (21, 23, 3), 3), config={"contours": n})
        r.scenario("tetragonal with %d contours" % n, lambda it: one(it, True, False, "none", False, (21, 23, 3), 3), config={"contours": n})

    for pat in ((0, 1, 2), (2, 0, 1), (1, 3, 0), (0, 0, 1)):
        for ortho in (True, False):
            r.scenario("slices %s %s" % (pat, ortho), lambda it, a=(True, ortho, "none", False, (21, 23, 3), 3, pat): one(it, *a))
    r.scenario("slices of five", lambda it: one(it, True, False, "eps", True, (21, 23, 5), 3, (0, 2, 1, 0, 1)))

    # resolution handed in becomes odd and at least as fine
    def odd(it):
        o = band(it, res=(20, 21, 4), run=False)
        g = attr(it, o, "resolution")
        if not isinstance(g, ListV):
            r.ob("resolution", None, "no list")
            return
        for i, (x, w) in enumerate(zip(g.items, (21, 21, 5))):
            t = term(x)
            r.ob("resolution/%d" % i, None if t is None or t.const() is None else t.const() == w, "resolution %s becomes %s instead of %d" % ((20, 21, 4)[i], t, w), writer(o, "resolution", BFILE))
    r.scenario("resolution", odd)


# ------------------------------------------------------------------ C16
MODELS16 = {
    "cuprate": (MODEL3, ("t", "mu", "tz", "tp"), "-mu-2*t*(cos(A*x)+cos(B*y))-4*tp*cos(A*x)*cos(B*y)-2*tz*cos(C*z/2)"),
    "mixed case": ("-mu+M*cos(a*kx)+t10*cos(b*ky)+t2*cos(c*kz)+Zeta*cos(a*kx)*cos(c*kz)", ("t2", "t10", "mu", "Zeta", "M"), "-mu+M*cos(A*x)+t10*cos(B*y)+t2*cos(C*z)+Zeta*cos(A*x)*cos(C*z)"),
    "two dimensional": (MODEL2, PARAMS2, "-mu-2*t*(cos(A*x)+cos(B*y))-4*tp*cos(A*x)*cos(B*y)"),
    "decimal numbers": ("-mu-2*t*(cos(a*kx)+cos(b*ky))-0.1234567*tp*cos(1.5*a*kx)*cos(b*ky)-1e-4*tz*cos(c*kz/2)", ("t", "mu", "tz", "tp"), ""),
    "one dimensional": ("-mu-2*t*cos(a*kx)", ("t", "mu"), "-mu-2*t*cos(A*x)"),
    "no x": ("-mu-2*t*cos(b*ky)", ("t", "mu"), "-mu-2*t*cos(B*y)"),
    "unused parameter": ("-mu-2*t*cos(a*kx)*cos(b*ky)*cos(c*kz)", ("tz", "t", "mu", "aux"), "-mu-2*t*cos(A*x)*cos(B*y)*cos(C*z)"),
}


def energy_pairs(t):
    """(tag, {name: Poly}) of the only ENERGY atom of a term, or None"""
    A = [x for x in T.atoms_of(t) if x.kind == "app" and x.key[1] == "ENERGY"]
    if len(A) != 1:
        return None
    return A[0].key[2][0], dict((n, q) for n, q in A[0].key[2][1:])


@check("C16", "Binding analysis of the generated dispersion and velocity functions: for models whose parameters are declared in any order and with names whose sorted order differs from it, the value that reaches each symbol of the model must be that parameter's current value times the energy scale (lattice constants and momenta: the object's own), after item assignment, whole-dictionary assignment in another order and a change of the energy scale; velocity component i must be the derivative along k_i times meV/hbar*Angstrom, and zero arrays of the shape of k where the model does not depend on k_i.",
       floor=60)
def c16(r):
    def one(it, name, order, how):
        model, params, _ = MODELS16[name]
        names = params if order == "given" else tuple(reversed(params)) if order == "reversed" else tuple(sorted(params))
        o = band(it, model=model, params=names, run=False)
        E0 = S("E0", UE, True)
        vals = {n: S(n, DLESS) for n in names}
        if how == "item":
            for n in reversed(names):
                vals[n] = S(n + "_new", DLESS)
                it.setitem(o, n, vals[n])
        elif how == "method":
            n = names[-1]
            vals[n] = S(n + "_new", DLESS)
            run(it, o, "set_band_param", n, vals[n])
        elif how == "dictionary":
            vals = {n: S(n + "_new", DLESS) for n in names}
            d = DictV()
            for n in sorted(names, reverse=True):
                it.setitem(d, n, vals[n])
            it.setattr(o, "band_params", d)
        elif how == "scale":
            E0 = S("E0_new", UE, True)
            it.setattr(o, "energy_scale", E0)
        k = "%s, declared %s, %s" % (name, order, how)
        for n in names:
            for m in ("item", "method"):
                g = it.getitem(o, n) if m == "item" else run(it, o, "get_band_param", n)
                r.eq("read %s/%s/%s" % (m, n, k), term(g), term(vals[n]), "reading parameter '%s' back (%s) gives another value" % (n, k), BFILE)
        for shape in (((7,),), ((7,), (5,), (3,)), ()):
            I = [ix(q) for q in range(len(shape))]
            ks = [Arr(Data(shape, app(s, *I) if I else sym(s), unit(Ang=-1), frozenset([s]))) for s in ("kxx", "kyy", "kzz")]
            e = D_(run(it, o, "energy_func", *ks))
            lab = k + " %dd" % len(shape)
            if e is None or e.term is None:
                r.ob("energy/" + lab, None, "no normal form")
                continue
            pr = energy_pairs(e.term)
            if pr is None:
                r.ob("energy/" + lab, None, "not one dispersion")
                continue
            import ast
            import ext_sci
            r.ob("model/" + lab, pr[0] == "E[%s]" % ext_sci.norm_model(ast.parse(model, mode="eval")), "the dispersion (%s) is not the model given" % lab, BFILE)
            want = {n: val(it, "x * y", x=vals[n], y=E0) for n in names}
            want.update({"a": S("a", UA, True), "b": S("b", UA, True), "c": S("c", UA, True), "kx": ks[0], "ky": ks[1], "kz": ks[2]})
            for n, q in pr[1].items():
                if n not in want:
                    r.ob("symbol %s/%s" % (n, lab), None, "unknown symbol")
                    continue
                r.eq("symbol %s/%s" % (n, lab), q, term(want[n]), "the symbol '%s' of the model receives another quantity (%s)" % (n, lab), BFILE)
            v = list(it.iterate(run(it, o, "velocity_func", *ks)))
            r.ob("components/" + lab, len(v) == 3, "%d velocity components" % len(v), BFILE)
            pre = val(it, "meV / hbar * ANG")
            for i, x in enumerate(v):
                d = D_(x)
                kn = ("kx", "ky", "kz")[i]
                if d is None or d.term is None:
                    r.ob("velocity %s/%s" % (kn, lab), None, "no normal form")
                    continue
                w = P(T.atom("app", "ENERGY", (pr[0] + "_" + kn,) + tuple(sorted(pr[1].items())))) if kn in pr[1] else None
                free = model_depends(model, kn)
                if not free:
                    r.eq("velocity %s/%s" % (kn, lab), d.term, ZERO, "the velocity along %s of a model without %s is not zero" % (kn, kn), BFILE)
                    s = shape_is(d, ks[0].data.vis())
                    r.ob("zeros %s/%s" % (kn, lab), s, "the velocity along %s has shape %s for k of shape %s" % (kn, shows(d.vis()), shows(ks[0].data.vis())), BFILE)
                else:
                    A = [a for a in T.atoms_of(d.term) if a.kind == "app" and a.key[1] == "ENERGY"]
                    if len(A) != 1:
                        r.ob("velocity %s/%s" % (kn, lab), None, "not one derivative")
                        continue
                    tag, pairs = A[0].key[2][0], A[0].key[2][1:]
                    r.ob("derivative %s/%s" % (kn, lab), tag == pr[0] + "_" + kn, "component %d of the velocity is the derivative '%s'" % (i, tag[len(pr[0]):]), BFILE)
                    r.eq("prefactor %s/%s" % (kn, lab), d.term, P(A[0]) * term(pre), "the velocity along %s is not the derivative of the energy over hbar" % kn, BFILE)
                    for n, q in pairs:
                        if n in want:
                            r.eq("velocity %s symbol %s/%s" % (kn, n, lab), q, term(want[n]), "the symbol '%s' of the velocity along %s receives another quantity (%s)" % (n, kn, lab), BFILE)
    hows = ("built", "item", "method", "dictionary", "scale")
    for name in MODELS16:
        for order in ("given", "reversed", "sorted"):
            for how in hows if order == "given" or r.thorough else ("built", "dictionary"):
                r.scenario("binding %s %s %s" % (name, order, how), lambda it, a=(name, order, how): one(it, *a))

    def par(it, parallel):
        o = band(it, run=False, parallel=parallel)
        ks, _ = kpoints()
        e = D_(run(it, o, "energy_func", *ks))
        o2 = band(it, run=False)
        e2 = D_(run(it, o2, "energy_func", *ks))
        r.eq("parallel=%s" % parallel, e.term, e2.term, "parallel=%s changes the dispersion" % parallel, BFILE)
    for p in (True, False):
        r.scenario("parallel %s" % p, lambda it, p=p: par(it, p))


def model_depends(model, k):
    import re
    return re.search(r"\b%s\b" % k, model) is not None


# ------------------------------------------------------------------ C17
FILL = """
gx = np.linspace(-o.k_max[0]/o.a, o.k_max[0]/o.a, rx)
gy = np.linspace(-o.k_max[1]/o.b, o.k_max[1]/o.b, ry)
gz = np.linspace(-o.k_max[2]/o.c, o.k_max[2]/o.c, rz)
X, Y, Z = np.meshgrid(gx, gy, gz, indexing='ij')
occ = o.energy_func(X, Y, Z) <= 0
n = 2 * np.sum(occ) / (rx*ry*rz) / o.number_of_bz
p = 1 - n
nkz = 2 * np.sum(occ, axis=(0, 1)) / (rx*ry) / o.number_of_bz
pkz = 1 - nkz
"""


@check("C17", "Formula conformity of filling and doping in normal form: n is twice the fraction of grid points with energy at or below zero, divided by the number of Brillouin zones, p = 1 - n, per-slice values likewise and averaging to the total; every public way of computing them (filling, doping, update_filling, per slice, over several bands, inside a run) must agree, and the doping solvers must hand the root finder the function doping(mu) - target and leave its root in every band.",
       floor=40)
def c17(r):
    def one(it, how, march, nbz, kmax, before=None):
        kw = {} if nbz is None else {"number_of_bz": nbz}
        if kmax:
            kw["kmax"] = L(S("kmx", DLESS, True), S("kmy", DLESS, True), S("kmz", DLESS, True))
        o = band(it, march, run=False, **kw)
        R = (31, 33, 35)
        k = "%s%s%s%s" % (how, "" if nbz is None else " n_BZ", " k range" if kmax else "", " after " + before if before else "")
        if before == "a coarse count":
            run(it, o, "update_filling", 11, 13, 15)
        elif before == "the same count":
            run(it, o, "update_filling", 31, 33, 35)
        elif before:
            run(it, o, "runBandStructure")
            run(it, o, "doping", 31, 33, 35)
            if before == "another number of zones":
                it.setattr(o, "number_of_bz", S("nbz_new", DLESS, True))
            elif before == "other k limits":
                it.setattr(o, "k_max", L(S("kmx_new", DLESS, True), S("kmy_new", DLESS, True), S("kmz_new", DLESS, True)))
            elif before == "another parameter":
                it.setitem(o, "mu", S("mu_new", DLESS))
            elif before == "another scale":
                it.setattr(o, "energy_scale", S("E0_new", UE, True))
            elif before == "a whole dictionary":
                it.setattr(o, "band_params", D(**{q: S(q + "_new", DLESS) for q in PARAMS3}))
            elif before == "another level":
                run(it, o, "runBandStructure", epsilon=S("eps", UE))
        out = None
        if how == "run":
            run(it, o, "runBandStructure")
            R = (210, 230, 30)
        elif how == "run level":
            run(it, o, "runBandStructure", epsilon=S("eps", UE))
            R = (210, 230, 30)
        elif how == "printed run":
            run(it, o, "runBandStructure", printDoping=True)
            R = (210, 230, 30)
        elif how == "default":
            run(it, o, "update_filling")
            R = None
        elif how == "doping of bands":
            out = it.call(it.need("bandstructure", "doping"), [L(o)], {})
            R = None
        elif how == "printed doping of bands":
            out = it.call(it.need("bandstructure", "doping"), [L(o)], {"printDoping": True})
            R = None
        elif how == "keywords":
            out = run(it, o, "doping", res_z=35, res_x=31, res_y=33)
        elif how == "printed doping":
            out = run(it, o, "doping", 31, 33, 35, True)
        else:
            out = run(it, o, how, *R)
        n, p = attr(it, o, "n"), attr(it, o, "p")
        if R is None or how.endswith("run") or how == "run level":
            # whatever grid the code chooses: the stored values must be those of doping() on that grid
            g = fill_grid(it, n)
            if g is None:
                r.ob("grid/" + k, None, "grid not recognised")
                return
            if R is not None:
                r.ob("run grid/" + k, g == R, "the filling of a run is counted on %s points instead of ten times the resolution" % (g,), writer(o, "n", BFILE))
            R = g
        ns = ref(it, FILL, o=o, rx=R[0], ry=R[1], rz=R[2])
        w = lambda x: writer(o, x, BFILE)
        eqv(r, it, "n/" + k, n, ns["n"], "the filling (%s) is not twice the occupied fraction of the grid" % k, w("n"))
        eqv(r, it, "p/" + k, p, ns["p"], "the doping (%s) is not one minus the filling" % k, w("p"))
        if out is not None:
            want = ns["n"] if how in ("filling", "update_filling") else ns["p"]
            eqv(r, it, "returned/" + k, out, want, "the value returned by %s is not the one it computes" % how, BFILE)
    nbz = S("nbz", DLESS, True)
    for how in ("update_filling", "filling", "doping", "keywords", "printed doping", "run", "run level", "printed run", "default", "doping of bands", "printed doping of bands"):
        r.scenario(how, lambda it, how=how: one(it, how, False, None, False))
        r.scenario(how + " zones", lambda it, how=how: one(it, how, True, nbz, True))
        for before in ("a coarse count", "the same count", "another number of zones", "other k limits", "another parameter", "another scale", "a whole dictionary", "another level"):
            if r.thorough or how in ("update_filling", "doping", "run", "doping of bands") or before in ("a coarse count", "another number of zones"):
                r.scenario(how + " after " + before, lambda it, a=(how, False, None, False, before): one(it, *a))

    # doping of several bands, counted before on other grids or with other settings
    def several(it, n, before):
        bs = [band(it, tag="_%d" % i, run=False, number_of_bz=S("nbz%d" % i, DLESS, True)) for i in range(n)]
        if before == "runs":
            for b in bs:
                run(it, b, "runBandStructure")
        elif before == "one coarse count":
            run(it, bs[0], "update_filling", 11, 13, 15)
        elif before == "zones":
            it.call(it.need("bandstructure", "doping"), [L(*bs)], {})
            it.setattr(bs[-1], "number_of_bz", S("nbz_new", DLESS, True))
        out = it.call(it.need("bandstructure", "doping"), [L(*bs)], {})
        k = "%d bands after %s" % (n, before)
        tot = None
        for b in bs:
            g = fill_grid(it, attr(it, b, "n"))
            if g is None:
                r.ob("several/" + k, None, "grid not recognised")
                return
            r.ob("several grid/" + k, g == fill_grid(it, attr(it, bs[-1], "n")), "the doping of several bands counts them on different grids", BFILE)
            x = ref(it, FILL, o=b, rx=g[0], ry=g[1], rz=g[2])["n"]
            tot = x if tot is None else it.binop("+", tot, x)
        eqv(r, it, "several/" + k, out, val(it, "1 - n", n=tot), "the doping of %s is not one minus the sum of the fillings" % k, BFILE)
    for n in (1, 2, 3):
        for before in ("nothing", "runs", "one coarse count", "zones"):
            r.scenario("several %d %s" % (n, before), lambda it, a=(n, before): several(it, *a))

    def slices(it, nbz, kmax):
        kw = {} if nbz is None else {"number_of_bz": nbz}
        if kmax:
            kw["kmax"] = L(S("kmx", DLESS, True), S("kmy", DLESS, True), S("kmz", DLESS, True))
        o = band(it, run=False, **kw)
        k = "slices%s%s" % ("" if nbz is None else " n_BZ", " k range" if kmax else "")
        out = list(it.iterate(run(it, o, "doping_per_kz", 31, 33, 5)))
        ns = ref(it, FILL, o=o, rx=31, ry=33, rz=5)
        if len(out) != 2:
            r.ob(k, False, "doping_per_kz returns %d values" % len(out), BFILE)
            return
        eqv(r, it, "n/" + k, out[0], ns["nkz"], "the filling per slice is not that of its slice", BFILE)
        eqv(r, it, "p/" + k, out[1], ns["pkz"], "the doping per slice is not that of its slice", BFILE)
        m = val(it, "np.mean(x)", x=out[0])
        eqv(r, it, "mean/" + k, m, ns["n"], "the mean filling of the slices is not the total filling", BFILE)
    for z in (None, nbz):
        for kk in (False, True):
            r.scenario("slices %s %s" % (z is not None, kk), lambda it, a=(z, kk): slices(it, *a))

    # solvers
    def solve(it, n, way):
        bs = [band(it, tag="_%d" % i, run=False, number_of_bz=S("nbz%d" % i, DLESS, True)) for i in range(n)]
        pt = S("p_target", DLESS)
        if way == "method":
            run(it, bs[0], "set_mu_to_doping", pt)
        else:
            it.call(it.need("bandstructure", "set_mu_to_doping"), [L(*bs), pt], {})
        k = "%s %d" % (way, n)
        ev = [e for e in it.events if e["kind"] == "root"]
        if not ev:
            raise AnchorMissing("root finder of set_mu_to_doping")
        e = ev[-1]
        root = sym(e["name"])
        for i, b in enumerate(bs):
            r.eq("mu %d/%s" % (i, k), term(it.getitem(b, "mu")), root, "band %d of %d does not hold the chemical potential found (%s)" % (i, n, way), BFILE)
        # objective: doping at the trial value minus the target
        ref_b = [band(it, tag="_%d" % i, run=False, number_of_bz=S("nbz%d" % i, DLESS, True)) for i in range(n)]
        tot = None
        for b in ref_b:
            it.setitem(b, "mu", e["trial"])
            run(it, b, "update_filling")
            x = attr(it, b, "n")
            tot = x if tot is None else it.binop("+", tot, x)
        want = val(it, "1 - n - p", n=tot, p=pt)
        g = D_(e["value"])
        if g is None or g.term is None:
            r.ob("objective/" + k, None, "no normal form")
        else:
            ok = T.equal(g.term, term(want)) is True or T.equal(-g.term, term(want)) is True
            if ok:
                r.ob("objective/" + k, True)
            else:
                r.eq("objective/" + k, g.term, term(want), "the function whose root is taken (%s) is not the doping minus its target" % k, BFILE)
        if e["bracket"]:
            lo, hi = [term(x) for x in e["bracket"]]
            if lo is not None and hi is not None and lo.const() is not None and hi.const() is not None:
                r.ob("bracket/" + k, lo.const() < hi.const(), "the bracket of the root finder is empty", BFILE)
    r.scenario("solve method", lambda it: solve(it, 1, "method"))
    for n in (1, 2, 3):
        r.scenario("solve %d" % n, lambda it, n=n: solve(it, n, "function"))


def fill_grid(it, n):
    """extents of the grid a filling was counted on (from the sums of its term)"""
    t = term(n)
    if t is None:
        return None
    ds = []

    def go(p):
        for m in p.t:
            for a, _ in m:
                A = T._ATOM_LIST[a]
                if A.kind == "sum":
                    ds.append(A.key[1])
                    go(A.key[2])
                    return
    go(t)
    if len(ds) != 3 or not all(isinstance(d, int) for d in ds):
        return None
    # the outermost sum belongs to the last axis
    e = [A for A in T.atoms_of(t) if A.kind == "app" and A.key[1] == "ENERGY"]
    if len(e) != 1:
        return None
    pairs = dict(e[0].key[2][1:])
    order = []
    for kn in ("kx", "ky", "kz"):
        bvs = [A.key[1] for A in T.atoms_of(pairs[kn]) if A.kind == "bv"]
        if len(bvs) != 1:
            return None
        order.append(bvs[0])
    depths = {}

    def go2(p, acc):
        for m in p.t:
            for a, _ in m:
                A = T._ATOM_LIST[a]
                if A.kind == "sum":
                    depths[A.key[3]] = A.key[1]
                    go2(A.key[2], acc)
    go2(t, None)
    try:
        return tuple(depths[b] for b in order)
    except KeyError:
        return None


# ------------------------------------------------------------------ C12
@check("C12", "Shape analysis: every array of the band structure, the transport object, the scattering rates and the angle sweep is assigned its symbolic shape in every combination of discretization, lattice symmetry, field, temperature and scattering model; documented arrays must have their documented shape, all arrays indexed by the Fermi-surface point the same number of points, per-slice counts must add up to it, and no operation may combine, index or integrate arrays of incompatible shapes.",
       floor=60)
def c12(r):
    def ck(it, key, v, want, msg, where):
        d = D_(v)
        if d is None:
            r.ob(key, None, "no array")
            return
        s = shape_is(d, want)
        r.ob(key, s, "%s has shape %s instead of %s" % (msg, shows(d.vis()), shows(tuple(want))), where)

    def faults(it, label):
        bad = 0
        for e in it.events:
            if e["kind"] in ("shape-mismatch", "index-rank", "index-range"):
                r.ob("%s/%s" % (e["kind"], e["loc"][2]), False, "%s: %s" % (e["kind"].replace("-", " "), e.get("a") or e), e["loc"])
                bad += 1
        if not bad:
            r.ob("compatible/" + label, True)

    def npoints(it, b):
        d = D_(attr(it, b, "kf"))
        return d.vis()[1] if d is not None and d.vis() is not None and len(d.vis()) == 2 else None

    def bs(it, march, ortho, model, ev):
        kw = dict(model=MODEL2, params=PARAMS2) if model == 2 else {}
        b = band(it, march, ortho, run=False, res=(20, 30, 4) if ev else (21, 23, 3), **kw)
        run(it, b, "runBandStructure")
        n = npoints(it, b)
        k = "%s %s %s%s" % ("square" if march else "cube", "orthorhombic" if ortho else "tetragonal", "3D" if model == 3 else "2D", " even" if ev else "")
        if n is None:
            ck(it, "kf/" + k, attr(it, b, "kf"), (3, None), "kf", writer(b, "kf", BFILE))
            return
        w = lambda x: writer(b, x, BFILE)
        want = {"kf": (3, n), "vf": (3, n), "dkf": (n,), "dos_k": (n,), "n": (), "p": ()}
        if march:
            want.update(dks=(n,), dkz=(n,))
        for x, s in want.items():
            ck(it, "%s/%s" % (x, k), attr(it, b, x), s, "%s (%s)" % (x, k), w(x))
        if march:
            c = attr(it, b, "number_of_points_per_kz_list")
            if isinstance(c, ListV):
                tot = P(0)
                for x in c.items:
                    tot = tot + term(x)
                r.eq("counts/" + k, tot, P(n), "the per-slice counts (%s) do not add up to the number of points" % k, w("number_of_points_per_kz_list"))
                r.ob("slices/" + k, len(c.items) == (5 if ev else 3), "%d counts for %d slices" % (len(c.items), 5 if ev else 3), w("number_of_points_per_kz_list"))
        run(it, b, "dos_epsilon_func")
        ck(it, "dos_epsilon/" + k, attr(it, b, "dos_epsilon"), (), "dos_epsilon (%s)" % k, w("dos_epsilon"))
        if march:
            run(it, b, "mass_func")
            ck(it, "mass/" + k, attr(it, b, "mass"), (), "mass (%s)" % k, w("mass"))
        out = list(it.iterate(run(it, b, "doping_per_kz", 31, 33, 5)))
        for i, x in enumerate(out):
            ck(it, "doping_per_kz %d/%s" % (i, k), x, (5,), "value %d of doping_per_kz" % i, BFILE)
        out = list(it.iterate(run(it, b, "dispersion_grid", L(31, 33, 5))))
        for x, s, m in zip(out, ((31, 33, 5),) * 4 + ((31,), (33,), (5,)), ("energy", "kxx", "kyy", "kzz", "kx", "ky", "kz")):
            ck(it, "grid %s/%s" % (m, k), x, s, "%s of dispersion_grid" % m, BFILE)
        for shape in (((7,),), ((7,), (5,)), ((7,), (5,), (4,))):
            ks, _ = kpoints(shape)
            ck(it, "energy_func %dd/%s" % (len(shape), k), run(it, b, "energy_func", *ks), ks[0].data.vis(), "the energy of k", BFILE)
            for i, x in enumerate(it.iterate(run(it, b, "velocity_func", *ks))):
                ck(it, "velocity_func[%d] %dd/%s" % (i, len(shape), k), x, ks[0].data.vis(), "component %d of the velocity" % i, BFILE)
        faults(it, "band " + k)
    for march in (False, True):
        for ortho in (True, False):
            for model in (3, 2):
                r.scenario("band %s %s %d" % (march, ortho, model), lambda it, a=(march, ortho, model, False): bs(it, *a))
            r.scenario("band %s %s even" % (march, ortho), lambda it, a=(march, ortho, 3, True): bs(it, *a))

    def tr(it, march, ortho, B, fin, models, model):
        kw = dict(model=MODEL2, params=PARAMS2) if model == 2 else {}
        o = cond(it, band(it, march, ortho, **kw), B, fin, models=models)
        run(it, o)
        b = bobj(it, o)
        n = npoints(it, b)
        k = "%s %s %s %s %s%s" % ("square" if march else "cube", "orthorhombic" if ortho else "tetragonal", "field" if B else "no field", "T" if fin else "T=0", "+".join(models), "" if model == 3 else " 2D")
        w = lambda x: writer(o, x, CFILE)
        ta = D_(attr(it, o, "time_array"))
        if n is None or ta is None or ta.vis() is None or len(ta.vis()) != 1:
            r.ob("grid/" + k, None, "no number of points or times")
            return
        nt = ta.vis()[0]
        ne = n if not fin else None     # at finite temperature the last energy may have another number of points
        want = {"kft": (3, ne, nt if B else 1), "vft": (3, ne, nt if B else 1), "tau_tot": (ne, nt) if B else (ne,), "t_o_tau": (ne, nt) if B else (ne,),
                "sigma": (3, 3), "alpha": (3, 3), "beta": (3, 3), "v_product": (3, 3, ne), "dtime_array": (nt,), "B_vector": (3,),
                "time_max": (), "dtime": (), "gamma_tot_max": (), "gamma_tot_min": (), "gamma_tot": None}
        for x, s in want.items():
            if s is not None:
                ck(it, "%s/%s" % (x, k), attr(it, o, x), s, "%s (%s)" % (x, k), w(x))
        if fin:
            ck(it, "epsilon_array/" + k, attr(it, o, "epsilon_array"), (4,), "epsilon_array (%s)" % k, w("epsilon_array"))
            dk = attr(it, o, "dkf_epsilon")
            for x, s in (("dos_k_epsilon", lambda m: (m,)), ("kft_epsilon", lambda m: (3, m, nt if B else 1)), ("vft_epsilon", lambda m: (3, m, nt if B else 1)),
                         ("t_o_tau_epsilon", lambda m: (m, nt) if B else (m,))):
                dd = attr(it, o, x)
                if not isinstance(dd, DictV) or not isinstance(dk, DictV):
                    r.ob("%s/%s" % (x, k), None, "no dictionary")
                    continue
                r.ob("%s size/%s" % (x, k), len(dd.d) == 4, "%s holds %d energies instead of %d" % (x, len(dd.d), 4), w(x))
                for key, (_, v) in dd.d.items():
                    q = dk.d.get(key)
                    m = D_(q[1]).vis() if q is not None and D_(q[1]) is not None else None
                    if m is None or len(m) != 1:
                        r.ob("%s/%s" % (x, k), None, "no element areas")
                        continue
                    ck(it, "%s/%s" % (x, k), v, s(m[0]), "%s (%s)" % (x, k), w(x))
        if B:
            run(it, o, "omegac_tau_func")
            ck(it, "omegac_tau_k/" + k, attr(it, o, "omegac_tau_k"), (n,), "omegac_tau_k (%s)" % k, w("omegac_tau_k"))
        faults(it, "transport " + k)
    for march in (False, True):
        for ortho in (True, False):
            for B in (True, False):
                for fin in (False, True):
                    r.scenario("transport %s %s %s %s" % (march, ortho, B, fin), lambda it, a=(march, ortho, B, fin, SC_MODELS, 3): tr(it, *a))
    for B in (True, False):
        r.scenario("transport 2D %s" % B, lambda it, B=B: tr(it, False, True, B, False, SC_MODELS, 2))
    for m in model_names():
        for B in (True, False):
            for fin in (False, True) if r.thorough else (False,):
                r.scenario("transport %s %s %s" % (m, B, fin), lambda it, a=(False, True, B, fin, (m,), 3): tr(it, *a))

    def rates(it, m, shape):
        o = cond(it, band(it), True, False, models=(m,))
        I = tuple(range(len(shape)))
        ks, vs = kpoints(shape)
        t = run(it, o, "tau_tot_func", *(ks + vs))
        ck(it, "tau_tot_func %s %dd" % (m, len(shape)), t, ks[0].data.vis(), "the scattering time of %s" % m, SFILE)
        faults(it, "rate %s %dd" % (m, len(shape)))
    for m in model_names():
        for shape in ((), ((7,),), ((7,), (5,)), ((7,), (5,), (4,))):
            r.scenario("rate %s %d" % (m, len(shape)), lambda it, a=(m, shape): rates(it, *a))

    def ad(it, n, nphi, ntheta):
        o = admr(it, [cond(it, band(it, tag="_%d" % i, number_of_bz=S("nbz%d" % i, DLESS, True)), tag="_%d" % i) for i in range(n)], nphi=nphi, ntheta=ntheta)
        it.call(it.getattr(o, "runADMR"), [], {})
        k = "%d bands %d x %d angles" % (n, nphi, ntheta)
        w = lambda x: writer(o, x, AFILE)
        for x, s in (("rhozz_array", (nphi, ntheta)), ("rzz_array", (nphi, ntheta)), ("Btheta_array", (ntheta,)), ("Bphi_array", (nphi,)), ("total_filling", ()), ("total_hole_doping", ())):
            ck(it, "%s/%s" % (x, k), attr(it, o, x), s, "%s (%s)" % (x, k), w(x))
        faults(it, "sweep " + k)
    for a in ((1, 1, 3), (2, 2, 3), (1, 3, 1), (3, 4, 2)):
        r.scenario("sweep %s" % (a,), lambda it, a=a: ad(it, *a), hooks=SUMM)


# ------------------------------------------------------------------ C18
@check("C18", "Formula conformity of the angle sweep (transport runs as uninterpreted functions of all settings held by the transport object when it runs): element (i, j) of the resistivity must be the zz component of the inverse of the sum over all bands of the conductivity at phi_i, theta_j, and the normalised row i that row divided by its own value interpolated at the normalisation angle; the transport and band objects handed in are used in place and left at no other setting than angles.",
       floor=20)
def c18(r):
    REFA = """
th = [lo + step*j for j in range(ntheta)]
rho = []
for phi in phis:
    row = []
    for theta in th:
        s = 0
        for c in conds:
            c.Bphi = phi
            c.Btheta = theta
            c.runTransport()
            s = s + c.sigma
        row.append(np.linalg.inv(s)[2, 2])
    rho.append(row)
rho = np.array(rho)
grid = np.array(th)
rzz = np.array([rho[i] / np.interp(norm, grid, rho[i]) for i in range(len(phis))])
"""

    def one(it, n, nphi, ntheta, progress, real):
        conds = [cond(it, band(it, tag="_%d" % i, number_of_bz=S("nbz%d" % i, DLESS, True)), tag="_%d" % i) for i in range(n)]
        o = admr(it, conds, nphi=nphi, ntheta=ntheta, show_progress=progress)
        it.call(it.getattr(o, "runADMR"), [], {})
        got = {x: attr(it, o, x) for x in ("rhozz_array", "rzz_array", "Btheta_array", "Bphi_array")}
        got = {x: Arr(D_(v)) if D_(v) is not None else None for x, v in got.items()}
        twin = [cond(it, band(it, tag="_%d" % i, number_of_bz=S("nbz%d" % i, DLESS, True)), tag="_%d" % i) for i in range(n)]
        ns = ref(it, REFA, conds=L(*twin), lo=S("th0", unit(deg=1), False), step=S("dth", unit(deg=1), True), ntheta=ntheta,
                 phis=L(*[S("ph%d" % i, unit(deg=1)) for i in range(nphi)]), norm=S("thn", unit(deg=1)))
        k = "%d bands %d x %d%s" % (n, nphi, ntheta, " progress" if progress else "")
        w = lambda x: writer(o, x, AFILE)
        eqv(r, it, "angles/" + k, got["Btheta_array"], ns["grid"], "the polar angles (%s) are not min, min + step, ..., max" % k, w("Btheta_array"))
        eqv(r, it, "rhozz/" + k, got["rhozz_array"], ns["rho"], "rhozz_array (%s) is not the zz element of the inverse of the total conductivity at its angles" % k, w("rhozz_array"))
        eqv(r, it, "rzz/" + k, got["rzz_array"], ns["rzz"], "rzz_array (%s) is not each row divided by its value at the normalisation angle" % k, w("rzz_array"))
        ref_b = None
        if not real:
            for i, c in enumerate(conds):
                lst = attr(it, o, "condObject_list")
                r.ob("in place %d/%s" % (i, k), isinstance(lst, ListV) and lst.items[i] is c, "the sweep does not use the transport object it was given", w("condObject_list"))
    for n in (1, 2, 3):
        for nphi, ntheta in ((1, 3), (2, 3), (3, 2)):
            r.scenario("sweep %d %d %d" % (n, nphi, ntheta), lambda it, a=(n, nphi, ntheta, False, False): one(it, *a), hooks=SUMM)
    r.scenario("sweep progress", lambda it: one(it, 2, 2, 3, True, False), hooks=SUMM)
    # with the transport of the package itself (zero field: cheap)
    r.scenario("sweep real", lambda it: one(it, 2, 2, 2, False, True))

    # settings assigned to the sweep before it runs
    def later(it):
        conds = [cond(it, band(it))]
        o = admr(it, conds, nphi=2, ntheta=3)
        it.setattr(o, "Btheta_norm", S("thn2", unit(deg=1)))
        it.setattr(o, "Bphi_array", Arr(Data(((3,),), app("phis", ix(0)), unit(deg=1))))
        it.call(it.getattr(o, "runADMR"), [], {})
        g = Arr(D_(attr(it, o, "rhozz_array"))), Arr(D_(attr(it, o, "rzz_array")))
        ns = ref(it, REFA, conds=L(cond(it, band(it))), lo=S("th0", unit(deg=1), False), step=S("dth", unit(deg=1), True), ntheta=3,
                 phis=L(*[Arr(Data((), app("phis", P(i)), unit(deg=1))) for i in range(3)]), norm=S("thn2", unit(deg=1)))
        eqv(r, it, "rhozz/later settings", g[0], ns["rho"], "rhozz_array does not follow azimuths assigned before the run", writer(o, "rhozz_array", AFILE))
        eqv(r, it, "rzz/later settings", g[1], ns["rzz"], "rzz_array does not follow a normalisation angle assigned before the run", writer(o, "rzz_array", AFILE))
    r.scenario("later settings", later, hooks=SUMM)

    # angles assigned in any order
    REFT = """
rho = []
for phi in phis:
    row = []
    for theta in th:
        s = 0
        for c in conds:
            c.Bphi = phi
            c.Btheta = theta
            c.runTransport()
            s = s + c.sigma
        row.append(np.linalg.inv(s)[2, 2])
    rho.append(row)
rho = np.array(rho)
grid = np.array(th)
o = np.argsort(grid)
rzz = np.array([rho[i] / np.interp(norm, grid[o], rho[i][o]) for i in range(len(phis))])
"""

    def given(it, th, norm):
        conds = [cond(it, band(it))]
        o = admr(it, conds, nphi=2, ntheta=3)
        it.setattr(o, "Btheta_array", val(it, "np.array(th)", th=L(*th)))
        it.setattr(o, "Btheta_norm", norm)
        it.call(it.getattr(o, "runADMR"), [], {})
        ns = ref(it, REFT, conds=L(cond(it, band(it))), th=L(*th), norm=norm, phis=L(*[S("ph%d" % i, unit(deg=1)) for i in range(2)]))
        k = "angles %s" % (th,)
        eqv(r, it, "rhozz/" + k, attr(it, o, "rhozz_array"), ns["rho"], "rhozz_array does not follow polar angles assigned before the run", writer(o, "rhozz_array", AFILE))
        eqv(r, it, "rzz/" + k, attr(it, o, "rzz_array"), ns["rzz"], "rzz_array is not normalised by the resistivity at the normalisation angle (angles %s)" % (th,), writer(o, "rzz_array", AFILE))
    for th, norm in (([90.0, 45.0, 0.0], 0), ([30.0, 0.0, 75.0, 60.0], 40), ([0.0, 10.0], 5), ([-20.0, 70.0, 15.0], S("thn", unit(deg=1)))):
        r.scenario("given angles %s" % th, lambda it, a=(th, norm): given(it, *a), hooks=SUMM)


# ------------------------------------------------------------------ C30
FINITE = """
x = lambda E: E / (2 * KB * o.T)
minus_df = lambda E: 1 / (4 * KB * o.T) / cosh(x(E))**2
bound = 2 * KB * o.T * arccosh(1 / sqrt(o.dfdE_cut_percent / (4 * KB * o.T) * 4 * KB * o.T))
grid = np.linspace(-bound, bound, o.N_epsilon)
dE = grid[1] - grid[0]
b = c.bandObject
dt = o.time_max / o.N_time
if field:
    Bx, By, Bz = o.Bamp * sin(o.Btheta*pi/180) * cos(o.Bphi*pi/180), o.Bamp * sin(o.Btheta*pi/180) * sin(o.Bphi*pi/180), o.Bamp * cos(o.Btheta*pi/180)
    f = q_e * PS * ANG / hbar
def rhs(y, t):
    kx, ky, kz = y.reshape(3, n)
    vx, vy, vz = b.velocity_func(kx, ky, kz)
    return np.array([f * (vy*Bz - vz*By), f * (vz*Bx - vx*Bz), f * (vx*By - vy*Bx)]).reshape(3*n)
pre = 2 * q_e**2 / (2*pi)**3 * PS / ANG**2 / b.number_of_bz
sigma, alpha, beta = 0, 0, 0
for i in range(o.N_epsilon):
    E = grid[i]
    b.runBandStructure(epsilon=E)
    n = b.kf.shape[1]
    v0 = b.vf
    if field:
        kft = odeint(rhs, b.kf.reshape(3*n), o.time_array).T.reshape(3, n, o.time_array.shape[0])
        vx, vy, vz = b.velocity_func(kft[0], kft[1], kft[2])
        vft = np.array([vx, vy, vz])
        gam = 1 / c.tau_tot_func(kft[0], kft[1], kft[2], vx, vy, vz)
        w = np.append(0, dt * np.ones_like(o.time_array))[:-1]
        vint = np.sum(vft * exp(-np.cumsum(w * gam, axis=1)) * dt, axis=2)
        v0 = vft[:, :, 0]
    else:
        vint = v0 * c.tau_tot_func(b.kf[0], b.kf[1], b.kf[2], v0[0], v0[1], v0[2])
    dos = 1 / (hbar * sqrt(b.vf[0]**2 + b.vf[1]**2 + b.vf[2]**2))
    s = pre * np.einsum('k,ik,jk->ij', b.dkf * dos, v0, vint)
    wgt = dE * minus_df(E)
    sigma = sigma + wgt * s
    alpha = alpha + wgt * s * (E * meV) / o.T / (-q_e)
    beta = beta + wgt * s * (E * meV)**2 / o.T / q_e**2
"""


@check("C30", "Formula conformity of the finite-temperature integration in normal form: the conductivity, thermoelectric and thermal tensors must be the sums over the symmetric energy grid of the energy-resolved conductivity times the negative derivative of the Fermi function times 1, E/(-e T) and E^2/(e^2 T); the grid must end where that weight falls to the requested fraction of its maximum, dfdE must be the derivative of the Fermi function and energyCutOff its inverse; at zero temperature the thermoelectric and thermal tensors vanish.",
       floor=20)
def c30(r):
    def one(it, march, B, models, neps, ortho=True, **kw):
        o = cond(it, band(it, march, ortho, **kw), B, True, models=models, neps=neps)
        run(it, o)
        got = {x: Arr(D_(attr(it, o, x))) if D_(attr(it, o, x)) is not None else None for x in ("sigma", "alpha", "beta", "epsilon_array")}
        c = cond(it, band(it, march, ortho, **kw), B, True, models=models, neps=neps)
        ns = ref(it, FINITE, o=o, c=c, field=B)
        k = "%s%s %s %s %d%s" % ("square" if march else "cube", "" if ortho else " tetragonal", "field" if B else "no field", "+".join(models), neps, "".join(" " + q for q in kw))
        w = lambda x: writer(o, x, CFILE)
        eqv(r, it, "grid/" + k, got["epsilon_array"], ns["grid"], "the energy grid (%s) does not end where the weight falls to the requested fraction" % k, w("epsilon_array"))
        for x in ("sigma", "alpha", "beta"):
            eqv(r, it, "%s/%s" % (x, k), got[x], ns[x], "%s (%s) is not the weighted sum over the energies" % (x, k), w(x))
    for march in (False, True):
        for B in (True, False):
            r.scenario("finite T %s %s" % (march, B), lambda it, a=(march, B, SC_MODELS, 4): one(it, *a))
    for B in (True, False):
        r.scenario("finite T zones %s" % B, lambda it, B=B: one(it, False, B, SC_MODELS, 3, number_of_bz=S("nbz", DLESS, True)))
        r.scenario("finite T squares zones %s" % B, lambda it, B=B: one(it, True, B, SC_MODELS, 3, number_of_bz=S("nbz", DLESS, True)))
        r.scenario("finite T k limits %s" % B, lambda it, B=B: one(it, False, B, SC_MODELS, 3, k_max=L(S("kmx", DLESS, True), S("kmy", DLESS, True), S("kmz", DLESS, True))))
        r.scenario("finite T tetragonal %s" % B, lambda it, B=B: one(it, True, B, SC_MODELS, 3, False))
    for n in (2, 3):
        r.scenario("finite T %d energies" % n, lambda it, n=n: one(it, False, False, SC_MODELS, n))
    for m in model_names():
        r.scenario("finite T " + m, lambda it, m=m: one(it, False, False, (m,), 3))

    def zero(it, march, B, later):
        o = cond(it, band(it, march), B, later)
        if later:
            run(it, o)
            it.setattr(o, "T", 0)
        run(it, o)
        for x in ("alpha", "beta"):
            d = D_(attr(it, o, x))
            k = "%s at T=0 %s %s%s" % (x, march, B, " after finite T" if later else "")
            if d is None:
                r.ob(k, None, "no array")
            else:
                r.eq(k, d.term, ZERO, "the %s tensor does not vanish at zero temperature" % x, writer(o, x, CFILE))
    for march in (False, True):
        for B in (True, False):
            r.scenario("zero T %s %s" % (march, B), lambda it, a=(march, B, False): zero(it, *a))
    r.scenario("zero T later", lambda it: zero(it, False, False, True))

    def fermi(it):
        o = cond(it, band(it), True, True)
        E = S("E", UE)
        g = run(it, o, "dfdE", E)
        w = val(it, "-1 / (4 * KB * o.T) / cosh(E / (2 * KB * o.T))**2", o=o, E=E)
        r.eq("dfdE", term(g), term(w), "dfdE is not the derivative of the Fermi function", CFILE)
        r.eq("dfdE even", term(run(it, o, "dfdE", val(it, "-E", E=E))), term(g), "dfdE is not even in the energy", CFILE)
        y = S("y", unit(meV=-1), True)
        cut = run(it, o, "energyCutOff", y)
        back = run(it, o, "dfdE", cut)
        # dfdE(energyCutOff(y)) = -y, using cosh(arccosh(x)) = x
        t = T.subst(term(back), lambda A: None)
        r.eq("inverse", cosh_arccosh(t), term(val(it, "-y", y=y)), "energyCutOff is not the inverse of dfdE", CFILE)
        for name, w in (("sigma", "1.0"), ("alpha", "(E * meV) / o.T / (-q_e)"), ("beta", "(E * meV)**2 / o.T / q_e**2")):
            if attr(it, o, "integrand_coeff") is None:
                continue
            g = run(it, o, "integrand_coeff", E, name)
            r.eq("coefficient " + name, term(g), term(val(it, w, o=o, E=E)), "the weight of %s is wrong" % name, CFILE)
    r.scenario("Fermi function", fermi)


def cosh_arccosh(p):
    """rewrites cosh(arccosh(x)) to x"""
    def f(A):
        if A.kind == "app" and A.key[1] == "cosh":
            q = A.key[2][0]
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    B = T._ATOM_LIST[m[0][0]]
                    if B.kind == "app" and B.key[1] == "arccosh":
                        return B.key[2][0]
        return None
    return T.subst(p, f)
