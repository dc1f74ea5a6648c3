"""Checks decided inside the instrumented process, at every time step of generated problems (drivers/drv_step.cpp)."""
GEN = ("Problems are generated from the seed: 2D and 3D tanks, random clouds, jittered blocks, separate clusters, sheets and tiny sets; mixed particle types, densities, fluid types and wall speeds; "
       "three independent effective radii; random spacing, time step, offset from the origin, domain box (tight, exact or wide), gravity, viscosity and thresholds; 1 to 8 steps each, one in eighty 100 to 300 steps (thorough: up to 1,200). ")

def step(cases, tcases, rule, need, extra=None, long=True):
    def f(c):
        c.build("drv_step")
        c.rule = GEN + rule
        c.assumptions = ["the observation wrapper around the pressure calculator passes state through unchanged", "comparisons allow rounding of about 1e-9 relative; decisions within rounding of a threshold are skipped and counted"]
        c.driver("drv_step", c.n(cases, tcases))
        if extra: extra(c)
        return need + ["steps observed beyond the fiftieth"] if long else need
    return f, "exploration"

def p01(c):
    c.build("drv_step", "drv_nbr")
    c.rule = ("Histories of one searcher: random box (flat, exact multiple of the cell, generic, shifted), radius, types and arrangement (on box and cell boundaries, one ulp outside, exactly one radius apart), "
              "a few histories with 33,000 to 72,000 particles or with up to 70,000 cells along an axis; then 1 to 6 updates with moves, jumps, type changes and exits between; plus the searches inside real time steps. Half of the histories use dyadic coordinates, where 'closer than the radius' is decided exactly. Non-trivial: at least two particles.")
    c.assumptions = ["with generic coordinates pairs whose distance equals the radius within rounding are not judged"]
    c.driver("drv_nbr", c.n(12000, 600000))
    c.driver("drv_step", c.n(2000, 60000))
    return ["neighbour lists compared", "neighbour lists compared among more than 32768 particles", "neighbour lists compared in boxes of very many cells", "updates after moves", "pairs exactly at the radius", "particles on the boundary", "particles that left", "steps observed"]

def p04(c):
    c.build("drv_refv")
    c.rule = "Weights at, one ulp around, inside and outside the radius; reference values in 2D and 3D for spacings from 1e-7 to 1e7 and ratios that are common, integers, square roots of integers (lattice shells), one ulp beside integers, just above 1, and generic up to 16 (2D) and 8 (3D)."
    c.assumptions = ["rounding up to 1e-12 relative is allowed in the sums, 2e-15 of re/r in a weight"]
    c.driver("drv_refv", c.n(8000, 200000))
    return ["weights at the radius", "weights inside the radius", "weights outside the radius", "reference values compared, ratio above 5", "reference values compared, ratio up to 5"]

CHECKS = {
 "P04": (p04, "exploration"),
 "P01": (p01, "exploration"),
 "P02": step(6000, 200000, "Non-trivial: at least one ghost or one ghost-removal comparison was observed.", ["particles ghosted at step start", "particles ghosted by prediction", "particles ghosted by collision", "ghosts that stayed inert", "ghost-removal results compared", "particles exactly on the boundary that stayed"]),
 "P03": step(6000, 200000, "Non-trivial: wall particles were present and compared.", ["wall particles unchanged", "particles identified"]),
 "P05": step(6000, 200000, "Non-trivial: a fluid particle with gravity or viscosity acting was compared.", ["predictions compared"]),
 "P06": step(6000, 200000, "Non-trivial: a collision was observed.", ["fluid pairs approaching", "fluid-wall pairs approaching", "fluid pairs separating", "clusters of three or more fluid particles"]),
 "P07": step(6000, 200000, "Non-trivial: a positive number density was compared.", ["positive densities compared", "saved density arrays compared"]),
 "P08": step(6000, 200000, "Non-trivial: a particle was classified free surface or inner.", ["free surface", "inner", "ignored", "exact imbalance cases", "exact density thresholds"]),
 "P09": step(5000, 150000, "Non-trivial: a system with positive pressures was compared, or an unsolvable one stopped the run.", ["systems compared", "positive pressures", "clamped pressures", "unsolvable systems stopped the run"]),
 "P10": step(6000, 200000, "Non-trivial: a compressed particle was compared.", ["compressed particles", "uncompressed particles"]),
 "P11": step(6000, 200000, "In 60 % of the steps an arbitrary pressure field is injected. Non-trivial: a particle was accelerated.", ["accelerated particles", "unaccelerated particles"]),
 "P12": step(6000, 200000, "Non-trivial: fluid moved.", ["CFL violations reported", "steps within the CFL condition", "exact Courant cases"]),
 "P25": step(6000, 200000, "Each is run again after a random change of axes, shift, renumbering, change of units, or all of them. Non-trivial: the two results were compared.", ["transformed steps: axes", "transformed steps:  shift", "transformed steps:  renumber", "transformed steps:  units"], long=False),
}
