"""Formula rules: the results of the real code against reference formulas, in normal form."""
from registry import check
from scen import *
from util import *
from summ import SUMM
from spec import ref, val
from rules_state import brief, BFILE, CFILE
import terms as T

AFILE = "cuprates_transport/admr.py"
SFILE = "cuprates_transport/scattering.py"

CHAMBERS = """
kft = o.kft
if field:
    vx, vy, vz = b.velocity_func(kft[0], kft[1], kft[2])
    vft = np.array([vx, vy, vz])
    gam = 1 / o.tau_tot_func(kft[0], kft[1], kft[2], vx, vy, vz)
    dt = o.time_max / o.N_time
    w = np.append(0, dt * np.ones_like(o.time_array))[:-1]
    P = np.cumsum(w * gam, axis=1)
    vint = np.sum(vft * exp(-P) * dt, axis=2)
    v0 = vft[:, :, 0]
else:
    v0 = b.vf
    tau = o.tau_tot_func(b.kf[0], b.kf[1], b.kf[2], v0[0], v0[1], v0[2])
    vint = v0 * tau
    P = tau
    vft = v0
dos = 1 / (hbar * sqrt(b.vf[0]**2 + b.vf[1]**2 + b.vf[2]**2))
pre = 2 * q_e**2 / (2*pi)**3 * PS / ANG**2 / b.number_of_bz
sigma = pre * np.einsum('k,ik,jk->ij', b.dkf * dos, v0, vint)
"""


def bobj(it, o):
    b = it.getattr(o, "bandObject")
    if not isinstance(b, ObjV):
        raise AnchorMissing("Conductivity.bandObject")
    return b


def eqv(r, it, key, got, want, msg, where):
    """array equality: shape and term"""
    g, w = D_(got), D_(want)
    if g is None or w is None:
        if got is None or isinstance(got, (ListV, DictV)):
            return r.ob(key, None, "no array: " + msg)
        return r.ob(key, None, "no value: " + msg)
    s = shape_is(g, w.vis()) if w.vis() is not None else None
    if s is False:
        return r.ob(key, False, "%s: its shape is %s instead of %s" % (msg, shows(g.vis()), shows(w.vis())), where)
    return r.eq(key, g.term, w.term, msg, where)


# ------------------------------------------------------------------ C09
UNITS = {
    "band": {"kf": unit(Ang=-1), "vf": unit(m=1, s=-1), "dkf": unit(Ang=-2), "dks": unit(Ang=-1), "dkz": unit(Ang=-1),
             "dos_k": unit(J=-1, m=-1), "dos_epsilon": unit(J=-1, m=-3), "mass": DLESS, "n": DLESS, "p": DLESS,
             "energy_scale": UE},
    "cond": {"B_vector": UT, "epsilon_array": UE, "time_max": unit(ps=1), "dtime": unit(ps=1), "time_array": unit(ps=1),
             "dtime_array": unit(ps=1), "gamma_tot_max": UG, "gamma_tot_min": UG, "gamma_tot": UG, "kft": unit(Ang=-1),
             "vft": unit(m=1, s=-1), "tau_tot": unit(ps=1), "t_o_tau": DLESS, "sigma": unit(Ohm=-1, m=-1),
             "alpha": unit(A=1, K=-1, m=-1), "beta": unit(W=1, K=-1, m=-1), "omegac_tau_k": DLESS},
    "admr": {"rhozz_array": UOm, "rzz_array": DLESS, "Btheta_array": unit(deg=1), "total_filling": DLESS, "total_hole_doping": DLESS},
}


@check("C09", "Unit inference: physical dimensions (with Angstrom, ps, meV and degree as units of their own, linked by the conversion literals) are propagated through every arithmetic operation, call and array store of the band structure, scattering, transport and angle sweep code; documented quantities must carry their documented unit and no operation may add, compare or exponentiate incompatible quantities.",
       floor=40)
def c09(r):
    seen = {}

    def ck(it, who, o, label, skip=()):
        for n, u in UNITS[who].items():
            v = attr(it, o, n)
            d = D_(v)
            if d is None or d.unit is None or d.term is ZERO or d.unit[0] == "lit" and (d.term is None or d.term.const() is not None):
                continue      # a number such as a field or tensor of zero has any unit
            if n in skip:
                continue
            want = u
            g = d.unit
            k = "%s.%s" % (who, n)
            seen[k] = True
            r.ob("unit/%s" % k, unit_ok(g, want), "'%s' is in %s; documented: %s (%s)" % (n, ushow(g), ushow(want), label), writer(o, n))

    def mixed(it, label):
        import ops
        bad = 0
        for e in it.events:
            if e["kind"] == "unit-mismatch":
                ok = None if dimension(e["ua"]) == dimension(e["ub"]) and ops.ODD else False
                r.ob("mixed/%s:%s" % (e["loc"][2], e["op"]), ok, "quantities in %s and %s are combined by '%s'" % (e["a"], e["b"], e["op"]), e["loc"])
                bad += 1
            elif e["kind"] == "unit-arg":
                ok = None if not dimension(e["ua"]) and ops.ODD else False
                r.ob("argument/%s:%s" % (e["loc"][2], e["func"]), ok, "the argument of '%s' is in %s" % (e["func"], e["a"]), e["loc"])
                bad += 1
        if not bad:
            r.ob("consistent/" + label, True)

    def bs(it, march, ortho):
        b = band(it, march, ortho)
        run(it, b, "dos_epsilon_func")
        if march:
            run(it, b, "mass_func")
        k = [Arr(Data(((7,),), app("karg%d" % i, ix(0)), unit(Ang=-1))) for i in range(3)]
        e = D_(run(it, b, "energy_func", *k))
        if e is not None and e.unit is not None:
            r.ob("unit/energy_func", unit_ok(e.unit, UE), "energies are in %s instead of meV" % ushow(e.unit), BFILE)
        v = run(it, b, "velocity_func", *k)
        for i, x in enumerate(it.iterate(v)):
            d = D_(x)
            if d is not None and d.unit is not None:
                r.ob("unit/velocity_func[%d]" % i, unit_ok(d.unit, unit(m=1, s=-1)), "velocities are in %s instead of m/s" % ushow(d.unit), BFILE)
        ck(it, "band", b, "band structure")
        mixed(it, "band structure %s %s" % (march, ortho))
    for march in (False, True):
        for ortho in (True, False):
            r.scenario("band %s %s" % (march, ortho), lambda it, a=(march, ortho): bs(it, *a))

    def co(it, march, B, fin, models):
        c = cond(it, band(it, march), B, fin, models=models)
        run(it, c)
        if B:
            run(it, c, "omegac_tau_func")
        # without field t_o_tau holds the rate itself
        ck(it, "cond", c, "transport", () if B else ("t_o_tau",))
        for n, u in (("dfdE", unit(meV=-1)), ("energyCutOff", UE)):
            if fin:
                a = S("arg", UE if n == "dfdE" else unit(meV=-1), True)
                d = D_(run(it, c, n, a))
                if d is not None and d.unit is not None:
                    r.ob("unit/" + n, unit_ok(d.unit, u), "%s is in %s instead of %s" % (n, ushow(d.unit), ushow(u)), CFILE)
        mixed(it, "transport %s %s %s %s" % (march, B, fin, models))
    allm = model_names()
    for march in (False, True):
        for B in (False, True):
            for fin in (False, True):
                r.scenario("transport %s %s %s" % (march, B, fin), lambda it, a=(march, B, fin, SC_MODELS): co(it, *a))
    for m in allm:
        for fin in (False, True):
            r.scenario("model %s %s" % (m, fin), lambda it, a=(False, True, fin, (m,)): co(it, *a))

    def ad(it):
        o = admr(it, [cond(it, band(it), tag=""), cond(it, band(it, tag="_2"), tag="_2")])
        it.call(it.getattr(o, "runADMR"), [], {})
        ck(it, "admr", o, "angle sweep")
        mixed(it, "angle sweep")
    r.scenario("angle sweep", ad, hooks=SUMM)
    if len(seen) < 20:
        raise AnchorMissing("documented quantities (only %d have a unit)" % len(seen))


def unit_ok(g, w):
    """True: documented unit.  False: another dimension, or another prefix although every
    conversion literal of the code is one this analysis knows.  None: undecided."""
    import ops
    if g[0] == "lit":
        g = ("u", g[1])
    if g == w:
        return True
    if dimension(g) != dimension(w):
        return False
    return None if ops.ODD else False


def model_names():
    it = Interp()
    SC = it.need("scattering", "Scattering")
    out = []
    for c in SC.mro():
        for n, v in c.ns.items():
            if isinstance(v, FuncV) and it.getattr(v, "is_scattering_method", None, True) is True and n not in out:
                out.append(n)
    if len(out) < 3:
        raise AnchorMissing("scattering models")
    return out


# ------------------------------------------------------------------ C10
@check("C10", "Formula conformity: the conductivity tensor, the per-point times and the time grid of a run are brought to normal form and compared with Chambers' formula written down independently (evaluated by the same abstract interpreter on the same band), for field on and off, both discretizations, every scattering model and any number of Brillouin zones.",
       floor=30)
def c10(r):
    def one(it, march, B, models, nbz, after):
        kw = {} if nbz is None else {"number_of_bz": nbz}
        o = cond(it, band(it, march, **kw), B, False, models=models)
        run(it, o)
        if after == "N_time":
            it.setattr(o, "N_time", S("N_time_2", DLESS, True, "i"))
            run(it, o)
        elif after == "Bamp":
            it.setattr(o, "Bamp", S("Bamp_2", UT, True) if B else 0)
            run(it, o)
        b = bobj(it, o)
        k = "%s %s %s%s%s" % ("square" if march else "cube", "field" if B else "no field", "+".join(models), " n_BZ" if nbz is not None else "", " after " + after if after else "")
        ns = ref(it, CHAMBERS, o=o, b=b, field=B)
        w = lambda n: writer(o, n, CFILE)
        eqv(r, it, "sigma/" + k, attr(it, o, "sigma"), ns["sigma"], "the conductivity (%s) is not Chambers' formula" % k, w("sigma"))
        eqv(r, it, "velocities/" + k, attr(it, o, "vft") if B else val(it, "o.vft[:, :, 0]", o=o), ns["vft"], "vft (%s) is not the velocity at kft" % k, w("vft"))
        if B:
            eqv(r, it, "attenuation/" + k, attr(it, o, "t_o_tau"), ns["P"], "t_o_tau (%s) is not the integral of the rate from 0 to t" % k, w("t_o_tau"))
            eqv(r, it, "tau_tot/" + k, attr(it, o, "tau_tot"), val(it, "1 / g", g=ns["gam"]), "tau_tot (%s) is not the inverse rate along the orbit" % k, w("tau_tot"))
        eqv(r, it, "dos/" + k, attr(it, b, "dos_k"), ns["dos"], "dos_k is not 1 / (hbar |v|)", writer(b, "dos_k", BFILE))
        # the time grid
        g = ref(it, """
tau = o.tau_tot_func(b.kf[0], b.kf[1], b.kf[2], b.vf[0], b.vf[1], b.vf[2])
tmax = 8 * np.max(tau)
dt = tmax / o.N_time
grid = np.arange(0, tmax, dt)
wts = np.append(0, dt * np.ones_like(grid))[:-1]
gmin, gmax = 1 / np.max(tau), 1 / np.min(tau)
""", o=o, b=b)
        for n, q in (("time_max", "tmax"), ("dtime", "dt"), ("time_array", "grid"), ("dtime_array", "wts"), ("gamma_tot_min", "gmin"), ("gamma_tot_max", "gmax")):
            eqv(r, it, "%s/%s" % (n, k), attr(it, o, n), g[q], "'%s' (%s) is not the one of the time grid of the Fermi surface" % (n, k), w(n))
        # B off: the same surface, the field enters only through the orbit
    nbz = S("nbz", DLESS, True)
    for march in (False, True):
        for B in (True, False):
            r.scenario("run %s %s" % (march, B), lambda it, a=(march, B, SC_MODELS, None, None): one(it, *a))
    for m in model_names():
        for B in (True, False):
            r.scenario("model %s %s" % (m, B), lambda it, a=(False, B, (m,), None, None): one(it, *a))
    for B in (True, False):
        r.scenario("zones %s" % B, lambda it, a=(False, B, SC_MODELS, nbz, None): one(it, *a))
        r.scenario("later field %s" % B, lambda it, a=(False, B, SC_MODELS, None, "Bamp"): one(it, *a))
    r.scenario("later steps", lambda it: one(it, False, True, SC_MODELS, None, "N_time"))

    # the tensors of the transport objects used by an angle sweep are their own,
    # for the direction they hold
    def swept(it, n, B, fin, real):
        mk = lambda: [cond(it, band(it, tag="_%d" % i), B, fin, tag="_%d" % i) for i in range(n)]
        conds, twins = mk(), mk()
        o = admr(it, conds, nphi=2, ntheta=2)
        it.call(it.getattr(o, "runADMR"), [], {})
        for i, (c, t) in enumerate(zip(conds, twins)):
            for a in ("Bphi", "Btheta"):
                it.setattr(t, a, attr(it, c, a))
            run(it, t)
            for nm in ("sigma", "alpha", "beta"):
                eqv(r, it, "swept/%s of band %d of %d%s%s%s" % (nm, i, n, "" if B else " no field", " finite T" if fin else "", " in full" if real else ""), attr(it, c, nm), attr(it, t, nm),
                    "after an angle sweep '%s' of transport object %d is not its own tensor" % (nm, i), writer(c, nm, CFILE))
    for n in (1, 2, 3):
        r.scenario("swept %d" % n, lambda it, a=(n, True, False, False): swept(it, *a), hooks=SUMM)
    r.scenario("swept in full", lambda it: swept(it, 2, True, False, True))
    r.scenario("swept in full, finite T", lambda it: swept(it, 2, False, True, True))

    # the relation of the grid quantities right after assigning N_time
    def grid(it):
        o = cond(it, band(it), True, False)
        run(it, o)
        it.setattr(o, "N_time", S("N_time_2", DLESS, True, "i"))
        g = ref(it, "dt = o.time_max / o.N_time\ngrid = np.arange(0, o.time_max, dt)\nwts = np.append(0, dt * np.ones_like(grid))[:-1]", o=o)
        for n, q in (("dtime", "dt"), ("time_array", "grid"), ("dtime_array", "wts")):
            eqv(r, it, "assigned N_time/" + n, attr(it, o, n), g[q], "'%s' does not follow an assignment of N_time" % n, writer(o, n, CFILE))
    r.scenario("assigned N_time", grid)


# ------------------------------------------------------------------ C11
@check("C11", "Formula conformity of the orbit equation: the right-hand side handed to the integrator, its initial state, its time grid and the unpacking of its solution are compared in normal form with dk/dt = (e/hbar) v(k) x B started at the Fermi-surface points; v . dk/dt and B . dk/dt must normalise to zero.",
       floor=12)
def c11(r):
    REF = """
Bx, By, Bz = o.Bamp * sin(o.Btheta*pi/180) * cos(o.Bphi*pi/180), o.Bamp * sin(o.Btheta*pi/180) * sin(o.Bphi*pi/180), o.Bamp * cos(o.Btheta*pi/180)
f = q_e * PS * ANG / hbar
def flow(kx, ky, kz):
    vx, vy, vz = b.velocity_func(kx, ky, kz)
    return f * (vy*Bz - vz*By), f * (vz*Bx - vx*Bz), f * (vx*By - vy*Bx)
def rhs1(y, t):
    kx, ky, kz = y.reshape(3, n)
    dx, dy, dz = flow(kx, ky, kz)
    return np.array([dx, dy, dz]).reshape(3*n)
def rhs2(y, t):
    y = y.reshape(n, 3)
    dx, dy, dz = flow(y[:, 0], y[:, 1], y[:, 2])
    return np.array([dx, dy, dz]).T.reshape(3*n)
n = b.kf.shape[1]
nt = o.time_array.shape[0]
kft1 = odeint(rhs1, b.kf.reshape(3*n), o.time_array).T.reshape(3, n, nt)
kft2 = np.transpose(odeint(rhs2, b.kf.T.reshape(3*n), o.time_array).reshape(nt, n, 3), (2, 1, 0))
"""

    def one(it, march, fin, ortho, change):
        o = cond(it, band(it, march, ortho), True, fin, rtol=S("rtol", DLESS, True), atol=S("atol", DLESS, True))
        run(it, o)
        if change:
            it.setattr(o, "Btheta", S("Btheta_2", unit(deg=1)))
            it.setattr(o, "Bphi", S("Bphi_2", unit(deg=1)))
            it.setattr(o, "Bamp", S("Bamp_2", UT, True))
            run(it, o)
        k = "%s%s%s%s" % ("square" if march else "cube", " finite T" if fin else "", "" if ortho else " tetragonal", " changed field" if change else "")
        b = bobj(it, o)
        ev = [e for e in it.events if e["kind"] == "odeint"]
        if not ev:
            raise AnchorMissing("orbit integration (odeint / solve_ivp)")
        e = ev[-1]
        # the accuracy asked for reaches the integrator
        for nm in ("rtol", "atol"):
            if attr(it, o, nm) is not None and r.ob("%s given/%s" % (nm, k), nm in e["kw"], "the orbits (%s) are integrated without the tolerance %s of the object" % (k, nm), e["loc"]):
                r.eq("%s/%s" % (nm, k), term(e["kw"][nm]), term(attr(it, o, nm)), "the orbits (%s) are not integrated with the tolerance %s of the object" % (k, nm), e["loc"])
        # conservation laws from the recorded right-hand side
        n = attr(it, b, "kf")
        kft = attr(it, o, "kft")
        if not fin:
            ns = ref(it, REF, o=o, b=b)
            g = D_(kft)
            a, c = D_(ns["kft1"]), D_(ns["kft2"])
            ok = None
            if g is not None and g.term is not None:
                if c is not None and c.term is not None and T.equal(g.term, c.term) is True:
                    ok = True
                    r.ob("orbit/" + k, True)
            if ok is None:
                eqv(r, it, "orbit/" + k, kft, ns["kft1"], "kft (%s) is not the orbit of dk/dt = (e/hbar) v x B from the Fermi surface" % k, writer(o, "kft", CFILE))
            eqv(r, it, "start/" + k, attr(it, o, "time_array") and val(it, "o.time_array[0]", o=o), val(it, "0.0"), "the orbits (%s) do not start at time zero" % k, writer(o, "time_array", CFILE))
        rd, st = e["rhs"], e["state"]
        sh = rd.shape
        if sh is None or len(sh) != 1 or rd.term is None or st is None or len(sh[0]) != 2 or 3 not in sh[0]:
            r.ob("conservation/" + k, None, "layout of the state not recognised")
            return
        ax = list(sh[0]).index(3)
        comps = [map_ix(rd.term, {ax: P(i), 1 - ax: ix(0)}) for i in range(3)]
        ks = [Arr(Data(((sh[0][1 - ax],),), map_ix(st, {ax: P(i), 1 - ax: ix(0)}), unit(Ang=-1))) for i in range(3)]
        v = [term(x) for x in it.iterate(run(it, b, "velocity_func", *ks))]
        Bv = D_(val(it, "o.Bamp * np.array([sin(o.Btheta*pi/180) * cos(o.Bphi*pi/180), sin(o.Btheta*pi/180) * sin(o.Bphi*pi/180), cos(o.Btheta*pi/180)])", o=o))
        Bc = [map_ix(Bv.term, {0: P(i)}) for i in range(3)]
        if any(x is None for x in comps + v):
            r.ob("conservation/" + k, None, "no normal form")
            return
        zero = lambda a, c: a[0] * c[0] + a[1] * c[1] + a[2] * c[2]
        r.eq("energy/" + k, zero(comps, v), ZERO, "v . dk/dt is not zero: the energy changes along the orbit", e["loc"])
        r.eq("field/" + k, zero(comps, Bc), ZERO, "B . dk/dt is not zero: the momentum along the field changes", e["loc"])
    for march in (False, True):
        for fin in (False, True):
            r.scenario("orbit %s %s" % (march, fin), lambda it, a=(march, fin, True, False): one(it, *a))
    r.scenario("orbit changed field", lambda it: one(it, False, False, True, True))
    r.scenario("orbit tetragonal", lambda it: one(it, True, False, False, False))


# ------------------------------------------------------------------ C13
RATES = """
def fold(k, a):
    return np.remainder(k + pi / a, 2*pi / a) - pi / a
phi = arctan2(fold(ky, b.b), fold(kx, b.a))
one = np.ones_like(kx)
R = {
  "isotropic": p["gamma_0"] * one,
  "cos2phi": p["gamma_k"] * np.abs(cos(2*phi))**p["power"],
  "cos2phi_coskz": p["gamma_k"] * np.abs(cos(2*phi))**p["power"] * np.abs(cos(kz*b.c/2))**p["power_z"],
  "sin2phi": p["gamma_k_sin"] * np.abs(sin(2*phi))**p["power_sin"],
  "gamma_dos_func": p["gamma_dos_max"] * np.max(sqrt(b.vf[0]**2 + b.vf[1]**2 + b.vf[2]**2)*0 + b.dos_k)**(-1) / (hbar * sqrt(vx**2 + vy**2 + vz**2)),
}
"""


def kpoints(shape=((7,),)):
    n = sum(len(g) for g in shape)
    I = [ix(q) for q in range(n)]
    ks = [Arr(Data(shape, app(s, *I), unit(Ang=-1), frozenset([s]))) for s in ("kxx", "kyy", "kzz")]
    vs = [Arr(Data(shape, app(s, *I), unit(m=1, s=-1), frozenset([s]))) for s in ("vxx", "vyy", "vzz")]
    return ks, vs


@check("C13", "Matthiessen rule in normal form: for every subset of the scattering models found in the source, in any order, the inverse of the total time must normalise to the sum of the documented rates with the object's current parameters, for every array shape, and again after any parameter is assigned (as attribute or as a whole dictionary).",
       floor=20)
def c13(r):
    names = model_names()

    def total(it, o, shape=((7,),)):
        ks, vs = kpoints(shape)
        t = run(it, o, "tau_tot_func", *(ks + vs))
        return val(it, "1 / t", t=t), ks, vs

    def rates(it, b, p, ks, vs):
        return ref(it, RATES, b=b, p=p, kx=ks[0], ky=ks[1], kz=ks[2], vx=vs[0], vy=vs[1], vz=vs[2])["R"]

    def one(it, models, shape):
        o = cond(it, band(it), True, False, models=models)
        b = bobj(it, o)
        p = sc_params()
        g, ks, vs = total(it, o, shape)
        R = rates(it, b, p, ks, vs)
        s = None
        k = "+".join(models) + ("" if len(shape) == 1 else " grid")
        for m in models:
            if ("s", m) not in R.d:
                # a model without a documented formula here: alone it defines its own rate
                o2 = cond(it, band(it), True, False, models=(m,))
                q = total(it, o2, shape)[0]
            else:
                q = R.d[("s", m)][1]
            s = q if s is None else it.binop("+", s, q)
        eqv(r, it, "sum/" + k, g, s, "the total rate of %s is not the sum of its rates" % k, SFILE)
        gt = attr(it, o, "gamma_tot")
        if gt is not None:
            eqv(r, it, "gamma_tot/" + k, gt, s, "gamma_tot of %s is not the total rate" % k, writer(o, "gamma_tot", SFILE))
    known = [m for m in names]
    subsets = [(m,) for m in known] + [tuple(known), tuple(reversed(known))] + \
        [(a, c) for a in known for c in known if a != c]
    for s in subsets:
        r.scenario("sum " + "+".join(s), lambda it, s=s: one(it, s, ((7,),)))
    for m in known:
        r.scenario("grid " + m, lambda it, m=m: one(it, (m,), ((7,), (5,))))
    r.scenario("repeated model", lambda it: one(it, (known[0], known[0]), ((7,),)))

    # current parameter values are used
    def assigned(it, m, how):
        o = cond(it, band(it), True, False, models=(m,))
        b = bobj(it, o)
        total(it, o)
        p = sc_params("_new")
        if how == "attribute":
            for key, x in list(p.d.values()):
                it.setattr(o, key, x)
        else:
            it.setattr(o, "scattering_params", p)
        g, ks, vs = total(it, o)
        R = rates(it, b, sc_params("_new"), ks, vs)
        if ("s", m) in R.d:
            eqv(r, it, "assigned %s/%s" % (how, m), g, R.d[("s", m)][1], "the rate of %s does not follow parameters assigned as %s" % (m, how), SFILE)
    for m in known:
        for how in ("attribute", "dictionary"):
            r.scenario("assigned %s %s" % (m, how), lambda it, a=(m, how): assigned(it, *a))

    # repeated evaluation does not accumulate, and lists of models are independent of the band's state
    def again(it, m):
        o = cond(it, band(it), True, False, models=(m, known[0]))
        g1 = total(it, o)[0]
        g2 = total(it, o)[0]
        eqv(r, it, "again/" + m, g2, g1, "a second evaluation of the rate (%s) differs" % m, SFILE)
    for m in known:
        r.scenario("again " + m, lambda it, m=m: again(it, m))

    # nothing that was computed before, on the object or its band, enters the rate
    def history(it, m, what):
        first = m
        if what == "models":
            first = [x for x in known if x != m][0]
        o = cond(it, band(it), True, False, models=(first,))
        b = bobj(it, o)
        p = sc_params()
        total(it, o, ((7,),))
        if what == "band parameter":
            it.call(it.getattr(b, "__setitem__"), ["mu", S("mu_new", DLESS)], {})
            run(it, b, "runBandStructure")
        elif what == "lattice":
            for n in ("a", "b", "c"):
                it.setattr(b, n, S(n + "_new", UA, True))
            run(it, b, "runBandStructure")
        elif what == "other band":
            o2 = band(it, False, True)
            it.setattr(b, "energy_scale", S("E_other", UE, True))
            run(it, o2, "runBandStructure")
            it.setattr(o, "bandObject", o2)
            b = o2
        elif what == "field":
            it.setattr(o, "Bamp", S("B_new", UT, True))
            it.setattr(o, "Bphi", S("phi_new", unit(deg=1)))
            run(it, o, "runTransport")
        elif what == "temperature":
            it.setattr(o, "T", 25)
            it.setattr(o, "N_epsilon", 3)
            run(it, o, "runTransport")
        elif what == "models":
            it.setattr(o, "scattering_models", L(m))
        elif what == "shape":
            total(it, o, ((7,), (5,)))
        elif what == "zero":
            for key in list(p.d):
                it.setitem(p, p.d[key][0], 0)
            q = sc_params()
            it.setattr(o, "scattering_params", D(**{n: 0 for n in SC_PARAMS}))
        elif what == "attribute then dictionary":
            for key, x in list(sc_params("_tmp").d.values()):
                it.setattr(o, key, x)
            it.setattr(o, "scattering_params", sc_params())
        elif what == "dictionary then attribute":
            it.setattr(o, "scattering_params", sc_params("_tmp"))
            for key, x in list(sc_params().d.values()):
                it.setattr(o, key, x)
        elif what == "same dictionary":
            for key, x in list(sc_params("_tmp").d.values()):
                it.setattr(o, key, x)
            it.setattr(o, "scattering_params", attr(it, o, "scattering_params"))
        shape = ((6,), (4,)) if what == "shape" else ((7,),)
        ks, vs = kpoints(shape)
        t = run(it, o, "tau_tot_func", *(ks + vs))
        if what == "zero":
            # 1 / 0: the total rate itself is looked at
            g = attr(it, o, "gamma_tot")
        else:
            g = val(it, "1 / t", t=t)
        R = rates(it, b, p, ks, vs)
        if ("s", m) in R.d:
            eqv(r, it, "after %s/%s" % (what, m), g, R.d[("s", m)][1], "the rate of %s is not that of the current settings after another %s" % (m, what), SFILE)
    for m in known:
        for what in ("band parameter", "lattice", "other band", "field", "temperature", "models", "shape", "zero", "attribute then dictionary", "dictionary then attribute", "same dictionary"):
            r.scenario("history %s %s" % (m, what), lambda it, a=(m, what): history(it, *a))


# ------------------------------------------------------------------ C14
@check("C14", "Symmetry analysis in normal form: the rate of every momentum-dependent scattering model is evaluated at k, at k plus reciprocal lattice vectors, at its mirror images and (tetragonal lattice) at its quarter turns; the terms must coincide for scalars, lists and grids of k, and must be non-negative for non-negative parameters.",
       floor=25)
def c14(r):
    names = model_names()

    def rate(it, o, ks, vs):
        return val(it, "1 / t", t=run(it, o, "tau_tot_func", *(list(ks) + list(vs))))

    def one(it, m, ortho, shape):
        o = cond(it, band(it, False, ortho), True, False, models=(m,))
        b = bobj(it, o)
        ks, vs = kpoints(shape)
        kx, ky, kz = ks
        vx, vy, vz = vs
        g = rate(it, o, ks, vs)
        lab = "%s %s%s" % (m, "orthorhombic" if ortho else "tetragonal", "" if len(shape) == 1 else " grid")
        neg = lambda x: val(it, "-x", x=x)
        E = lambda e: val(it, e, kx=kx, ky=ky, kz=kz, b=b)
        images = {
            "kx + 2 pi/a": ((E("kx + 2*pi/b.a"), ky, kz), vs),
            "kx - 2 pi/a": ((E("kx - 2*pi/b.a"), ky, kz), vs),
            "kx + 4 pi/a": ((E("kx + 4*pi/b.a"), ky, kz), vs),
            "ky + 2 pi/b": ((kx, E("ky + 2*pi/b.b"), kz), vs),
            "ky - 2 pi/b": ((kx, E("ky - 2*pi/b.b"), kz), vs),
            "kz + 4 pi/c": ((kx, ky, E("kz + 4*pi/b.c")), vs),
            "kz + 2 pi/c": ((kx, ky, E("kz + 2*pi/b.c")), vs),
            "both": ((E("kx + 2*pi/b.a"), E("ky - 2*pi/b.b"), E("kz - 4*pi/b.c")), vs),
            "kx -> -kx": ((neg(kx), ky, kz), (neg(vx), vy, vz)),
            "ky -> -ky": ((kx, neg(ky), kz), (vx, neg(vy), vz)),
            "kz -> -kz": ((kx, ky, neg(kz)), (vx, vy, neg(vz))),
            "k -> -k": ((neg(kx), neg(ky), neg(kz)), (neg(vx), neg(vy), neg(vz))),
        }
        if not ortho:
            images.update({
                "quarter turn": ((neg(ky), kx, kz), (neg(vy), vx, vz)),
                "three quarter turn": ((ky, neg(kx), kz), (vy, neg(vx), vz)),
                "diagonal mirror": ((ky, kx, kz), (vy, vx, vz)),
            })
        for n, (k2, v2) in images.items():
            g2 = rate(it, o, k2, v2)
            eqv(r, it, "%s/%s" % (lab, n), g2, g, "the rate of '%s' changes under %s (%s)" % (m, n, "orthorhombic" if ortho else "tetragonal"), SFILE)
        d = D_(g)
        if d is not None and d.term is not None:
            ok = True if T.is_nonneg(d.term) or T.is_pos(d.term) else (
                False if T.is_pos(-d.term) or T.sign_changes(d.term) or T._trig_poly(d.term) else None)
            r.ob("non-negative/" + lab, ok, "the rate of '%s' is negative for positive parameters" % m, SFILE)
    for m in names:
        for ortho in (True, False):
            for shape in (((7,),), ((7,), (5,))):
                r.scenario("%s %s %d" % (m, ortho, len(shape)), lambda it, a=(m, ortho, shape): one(it, *a))
