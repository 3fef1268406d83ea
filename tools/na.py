"""properties static analysis cannot decide here"""
from props import p, BS, CO, AD, SC, FM, FP, FSM, FSO, FITS
PROPS = [
    p("N01", "Transport tensors converge with resolution and time steps",
      "As the momentum resolution, the number of time steps and the number of energies grow, the conductivity, Peltier and thermal tensors converge to the exact Chambers integral for the band, field and rates given.",
      ("inputs",), "all band models, fields, rates and resolutions", "The tests compare one component at one resolution.", [CO, BS],
      [("discretization and quadrature", CO)]),
    p("N02", "Tensors obey Onsager symmetry and have a positive dissipative part",
      "For every band, field and scattering rate the computed conductivity obeys sigma_ij(B) = sigma_ji(-B), has a positive definite symmetric part, and respects the symmetries of the lattice, within discretization error.",
      ("inputs",), "all bands, fields and rates", "No test looks at off-diagonal components or reversed fields.", [CO], [("sigma at finite field", CO)]),
    p("N03", "The fit optimisers converge to the parameters that generated the data",
      "Given data generated from known parameters inside the bounds, each fitting procedure ends at these parameters within the tolerance of the method.",
      ("inputs", "schedules"), "all data sets, bounds, seeds and worker schedules", "A fit takes hours; tests do not run one to the end.", FITS, [("scipy/lmfit optimisers", FM)]),
    p("N04", "Filling satisfies Luttinger's count to within the grid spacing",
      "The computed filling equals twice the fraction of the Brillouin zone below the Fermi level, with an error that vanishes as the grid is refined, and the chemical potential found for a target doping reproduces it to the solver tolerance.",
      ("inputs",), "all band models and grids", "Two bands are compared at one grid.", [BS], [("doping on a grid", BS)]),
    p("N05", "Truncating the orbit at eight mean free times is negligible",
      "The part of the Chambers integral beyond the largest simulated time changes no component of the conductivity by more than a small stated fraction, for every field and rate.",
      ("inputs",), "all fields, bands and rates", "One field is tested.", [CO], [("time_max = 8 tau_max", CO)]),
    p("N06", "Fermi-surface points lie on the constant-energy surface",
      "Every discretized point has an energy equal to the requested level within an error that vanishes with the grid spacing, for every band, level and resolution, and no sheet of the surface is missed.",
      ("inputs",), "all bands, levels and resolutions", "First elements of the arrays of two bands are compared.", [BS], [("marching squares / cubes", BS)]),
]
REASON = {
    "N01": "Convergence of a quadrature quantifies over runtime numbers and grid sizes; no sound static argument in reach bounds the error of interpolated contours, ODE solutions and sums. The structural part (which formula is summed, over which arrays) is claimed under the Chambers-formula property.",
    "N02": "Symmetry and positivity of a sum over numerically found surface points within an error bound is a statement about runtime values; the code has no construct that enforces them.",
    "N03": "Depends on the behaviour of scipy/lmfit optimisers on runtime data and seeds; the structural parts (every free parameter reaches the simulation, like-with-like residuals) are claimed separately.",
    "N04": "A count over a sampled grid against the exact volume, and the tolerance of a root finder, are runtime numbers. The structural definition of filling and doping is claimed separately.",
    "N05": "A truncation error for runtime rates and fields: numerical, not visible in the shape of the code.",
    "N06": "Accuracy and completeness of scikit-image's interpolated contours are runtime quantities of an external library; which field is contoured, at which level, and how indices are mapped to momenta is claimed separately.",
}
