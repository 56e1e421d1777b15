"""Which harness runs decide which property, and within which bounds."""

ASSUME = [
    "floating-point arithmetic is encoded over the reals (rounding, overflow and NaN propagation are outside; "
    "coefficients that differ by less than 1e-12 relative when they cancel are identified)",
    "third-party loguru/HighFive/picojson are replaced by stand-ins; a FATAL log is a program stop",
    "OpenMP pragmas are ignored (sequential semantics), MPI is compiled out except in P26",
]

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def sizes(*xs, **kw):
    return [dict(zip(kw["names"], x)) for x in xs]


prop("P05",
     how="Grid/Grid3D exchange routines executed symbolically with every cell of both grids (interior and halo) a free "
         "real variable; z3 decides equality of every cell after the exchange with the specification",
     bounds="grid shapes 4x4 .. 6x5 (square, non-square, unequal depth), halo width 2; values unbounded",
     runs=[
         dict(harness="grid", entry="overlay_x", params=sizes((4, 4, 4), (4, 6, 5), (6, 4, 4), names=("nx", "ny", "mx"))),
         dict(harness="grid", entry="overlay_y", params=sizes((4, 4, 4), (4, 6, 5), (6, 4, 4), names=("nx", "ny", "my"))),
         dict(harness="grid", entry="overlay_xy", params=sizes((4, 4), (4, 6), (6, 4), (5, 4), names=("nx", "ny"))),
         dict(harness="grid", entry="overlay_3d",
              params=[dict(nx=4, ny=5, dir=d) for d in (0, 1, 2, 3)]),
         dict(harness="grid", entry="overlay_yx", params=sizes((4, 4), (4, 6), (6, 4), (5, 4), names=("nx", "ny"))),
         dict(harness="grid", entry="cells", params=sizes((3, 4), (4, 2), names=("nx", "ny"))),
         dict(harness="grid", entry="no_component", params=[dict(how=0), dict(how=1)]),
         dict(harness="grid", entry="overlay_clear", params=sizes((4, 5), (6, 4), names=("nx", "ny"))),
         dict(harness="grid", entry="overlay_mismatch", params=[dict(nx=4, ny=5, dir=d) for d in range(5)]),
         dict(harness="grid", entry="overlay_x", tier="thorough", params=sizes((7, 9, 8), (10, 4, 5), names=("nx", "ny", "mx"))),
         dict(harness="grid", entry="overlay_y", tier="thorough", params=sizes((7, 9, 8), (10, 4, 5), names=("nx", "ny", "my"))),
         dict(harness="grid", entry="overlay_xy", tier="thorough", params=sizes((7, 9), (10, 5), names=("nx", "ny"))),
     ])

# every place a domain can have in the area: each combination of the walls it touches
YEE = [dict(nr=5, nz=5, i0=0, k0=0, walls=15), dict(nr=4, nz=5, i0=0, k0=0, walls=3), dict(nr=4, nz=4, i0=3, k0=5, walls=0),
       dict(nr=5, nz=4, i0=7, k0=2, walls=12)]
YEE += [dict(nr=4, nz=4, i0=0 if w & 1 else 3, k0=0 if w & 2 else 5, walls=w) for w in range(16) if w not in (0, 3, 12, 15)]
YEE_T = [dict(nr=8, nz=7, i0=0, k0=0, walls=15), dict(nr=7, nz=9, i0=11, k0=0, walls=6)]


def yee(**kw):
    return [dict(p, **kw) for p in YEE]


def yee_t(**kw):
    return [dict(p, **kw) for p in YEE_T]


prop("P01",
     how="MaxwellSolverYee::calc_field_h executed symbolically with every E and H node and the cell sizes and time step "
         "symbolic; the new H is compared with H - dt/mu0 curl E node by node, and the discrete divergence of H before and "
         "after the step is compared cell by cell",
     bounds="one step from an arbitrary field state on domains of 4x4 to 5x5 cells (thorough: up to 8x7 and two steps) at the "
            "axis, in the bulk and at the outer walls; field values, dr, dz, dt unbounded",
     runs=[dict(harness="yee", entry="faraday", params=yee()),
           dict(harness="yee", entry="div_h_kept", params=yee(steps=1)),
           dict(harness="yee", entry="faraday", variant="nopml", params=yee()[:1]),
           dict(harness="yee", entry="faraday", params=yee_t(), tier="thorough"),
           dict(harness="yee", entry="div_h_kept", params=yee_t(steps=2), tier="thorough")])
prop("P02",
     how="MaxwellSolverYee::calc_field_e executed symbolically with every E, H, J, sigma and epsilon node symbolic; each new "
         "E node is compared with the semi-implicit Ampere update incl. the axis and wall rows, and the discrete divergence "
         "of eps E changes by exactly -dt div J where sigma is zero",
     bounds="one step from an arbitrary state on domains of 4x4 to 5x5 cells (thorough up to 8x7); values unbounded",
     runs=[dict(harness="yee", entry="ampere", params=yee()),
           dict(harness="yee", entry="gauss", params=yee()),
           dict(harness="yee", entry="ampere", variant="nopml", params=yee()[:1]),
           dict(harness="yee", entry="ampere", params=yee_t(), tier="thorough"),
           dict(harness="yee", entry="gauss", params=yee_t(), tier="thorough")])
prop("P03",
     how="one full leap-frog step (calc_field_h, calc_field_e) of a closed cavity executed symbolically; the discrete energy "
         "balance with the work of the current and the sigma loss is an exact identity the solver decides",
     bounds="closed box of 4x4 cells with current, 3x3 with absorber (thorough: 4x4 with both); values unbounded",
     runs=[dict(harness="yee", entry="energy", params=[dict(nr=4, nz=4, i0=0, k0=0, walls=15, j=1, sig=0),
                                                       dict(nr=3, nz=3, i0=0, k0=0, walls=15, j=0, sig=1)]),
           dict(harness="yee", entry="energy", tier="thorough",
                params=[dict(nr=4, nz=4, i0=0, k0=0, walls=15, j=1, sig=1)])])
prop("P04",
     how="the solver's constructor (set_pml) executed symbolically with symbolic cell sizes and conductivities; every sigma "
         "node is compared with the quadratic ramp in the layers that cover it and with zero elsewhere",
     bounds="global grids 6x8 whole and a corner domain at an offset, layers of 2..5 cells; cell sizes and sigma unbounded",
     runs=[dict(harness="yee", entry="pml_profile", params=[
         dict(gnr=6, gnz=8, i0=0, k0=0, nr=6, nz=8, pl=2, pr=3, po=2),
         dict(gnr=6, gnz=8, i0=3, k0=4, nr=3, nz=4, pl=5, pr=2, po=2),
         dict(gnr=6, gnz=8, i0=0, k0=0, nr=3, nz=4, pl=2, pr=0, po=0),
         dict(gnr=6, gnz=8, i0=0, k0=0, nr=6, nz=8, pl=0, pr=0, po=3)]
         + [dict(gnr=6, gnz=9, i0=i, k0=k, nr=2, nz=3, pl=4, pr=4, po=3) for i in (0, 2, 4) for k in (0, 3, 6)]),
           dict(harness="yee", entry="pml_profile", tier="thorough", params=[
               dict(gnr=12, gnz=16, i0=0, k0=0, nr=12, nz=16, pl=4, pr=6, po=5),
               dict(gnr=12, gnz=16, i0=6, k0=8, nr=6, nz=8, pl=9, pr=5, po=4)])])
SQ = dict(sqrt_assume=1, divcheck=0)


def pusher(*es):
    return [dict(harness="pusher", entry=e, variant=v,
                 opts=SQ if v in ("vay", "hc") or e == "combined" else None,
                 params=[dict(fast=0), dict(fast=1)] if v == "default" else [{}])
            for e in es for v in ("default", "boris", "borisrel", "vay", "hc")]


PB = ("one step of one particle from any sub-light velocity in any uniform E and H, any q, m, dt > 0; five compiled pushers "
      "(adaptive Boris on either side of its threshold, Boris, relativistic Boris, Vay, Higuera-Cary)")
prop("P06",
     how="Pusher*::operator() executed symbolically on one particle with free momentum, field, charge, mass and step; speed and "
         "the component along H are compared before and after as exact real identities",
     bounds=PB, runs=pusher("free_flight", "magnetic_only"))
prop("P07",
     how="Pusher*::operator() executed symbolically; the new velocity is compared with momentum + q E dt (electric only), with "
         "the defining equation of each scheme (both fields), below c, and species/particles are shown independent",
     bounds=PB + "; three particles in two species for the independence run",
     runs=pusher("electric_only", "combined", "independent"))

prop("P08",
     how="mover, return to the r-z plane and velocity rotation of SpecieP executed symbolically on particles with free position "
         "and velocity; the result is compared with straight-line motion in space (radius, longitude, speed, angular momentum, "
         "radial velocity)",
     bounds="one step of two particles, any position r > 0 and velocity, any dt, that do not pass beyond the axis (a run for "
            "those that do is a known finding)",
     runs=[dict(harness="mover", entry="straight_line"), dict(harness="mover", entry="across_axis"),
           dict(harness="mover", entry="cells", params=[dict(i0=0, k0=0), dict(i0=2, k0=1)])])
REFL = [dict(nr=4, nz=5, i0=0, k0=0, walls=15), dict(nr=4, nz=5, i0=0, k0=6, walls=9), dict(nr=5, nz=4, i0=6, k0=0, walls=6),
        dict(nr=4, nz=4, i0=3, k0=5, walls=0), dict(nr=3, nz=3, i0=6, k0=7, walls=12), dict(nr=3, nz=4, i0=5, k0=2, walls=4),
        dict(nr=3, nz=4, i0=0, k0=2, walls=1), dict(nr=3, nz=4, i0=3, k0=0, walls=2), dict(nr=3, nz=4, i0=3, k0=5, walls=8)]
REFL += [dict(nr=3, nz=4, i0=0 if w & 1 else 2, k0=0 if w & 2 else 3, walls=w) for w in (3, 5, 7, 10, 11, 13, 14)]
prop("P09",
     how="SpecieP::reflect executed symbolically on a particle with free old and new position and velocity; position, velocity "
         "and confinement are compared with specular reflection half a cell inside each wall the domain owns",
     bounds="domains of 3..5 cells at all sixteen wall combinations; any cell size, any overshoot shorter than the distance between "
            "opposite walls (one bounce per direction; corners included); a whole step into each wall in 2x2 domains",
     runs=[dict(harness="mover", entry="reflection", params=REFL),
           dict(harness="smb", variant="boris", entry="bounce",
                params=[dict(nr=4, nz=4, walls=15, pml_r=0, pml_z=0, pml_l=0, x=2, y=2, wall=w) for w in (1, 2, 3)])])

prop("P10",
     how="MaxwellSolver::get_field_e/get_field_h executed symbolically at a free place of every cell with every node value free; "
         "each component is compared with the volume weighting of its own four nodes at their staggered places",
     bounds="domains of 2x2 and 3x3 cells at the axis and at an offset, every place in every cell (not closer than half a cell to the "
            "axis); node values and cell sizes unbounded",
     runs=[dict(harness="gather", entry="gather", params=[dict(nr=3, nz=3, i0=0, k0=0), dict(nr=2, nz=2, i0=4, k0=3), dict(nr=2, nz=3, i0=0, k0=4), dict(nr=3, nz=2, i0=3, k0=0)])])
MP = [dict(nr=2, nz=2, i0=0, k0=0), dict(nr=3, nz=2, i0=3, k0=4)]
prop("P11",
     how="SpecieP::calc_density executed symbolically on particles at free places with free weights over a map with arbitrary old "
         "contents; every node, halo included, is compared with the volume weighted cloud, and the total with the total weight",
     bounds="one to two particles (thorough three) on domains of 2x2 and 3x2 cells at the axis and at an offset; places, weights and "
            "cell sizes unbounded",
     runs=[dict(harness="maps", entry="density", params=[dict(p, n=2) for p in MP]),
           dict(harness="maps", entry="density_axis", params=[dict(nr=3, nz=2, i0=0, k0=3)]),
           dict(harness="maps", entry="density", tier="thorough", params=[dict(p, n=3) for p in MP])])
prop("P12",
     how="SpecieP::calc_momentum, calc_energy and calc_temperature executed symbolically on one or two particles of free place, "
         "weight, mass and velocity over maps with arbitrary old contents; every node is compared with the weighted mean momentum "
         "and the energies that belong to it",
     bounds="one or two particles, slower or faster than the relativistic threshold, domains of 2x1 to 3x2 cells; energy of two "
            "particles: at most one of them relativistic",
     runs=[dict(harness="maps", entry="momentum", params=[dict(MP[0], fast0=0, fast1=1), dict(MP[1], fast0=1, fast1=1)]),
           dict(harness="maps", entry="energy_one", params=[dict(MP[0], fast=f, dir=d, first=d % 2) for f in (0, 1) for d in (0, 1, 2, 3)]),
           dict(harness="maps", entry="energy_two", params=[dict(nr=2, nz=1, i0=1, k0=0, fast0=a, fast1=b, cross=c, first=(a + b + c) % 2)
                                                            for a, b, c in ((0, 0, 0), (0, 0, 1), (0, 1, 1))])])

VB = dict(harness="current_vb")
VQ = dict(nr=2, nz=2, i0=3, k0=1)
VA = dict(nr=2, nz=2, i0=0, k0=0)
prop("P13",
     how="CurrentVB::current_distribution executed symbolically on particles with free start and end in given cells, on top of "
         "arbitrary currents; the net current out of every node is compared with the charge the node loses (logarithms are "
         "uninterpreted and must cancel), the azimuthal current with the charge's cloud times v_phi",
     bounds="moves within a cell and into each of the eight neighbours, at the axis and away from it, along one axis exactly or oblique; "
            "parts of a track inside one cell not shorter than MNZL (1e-15) unless empty; up to three particles of two species",
     runs=[dict(VB, entry="oblique", params=[dict(VQ, i=1, k=0, di=a, dk=b) for a in (-1, 0, 1) for b in (-1, 0, 1)] +
                [dict(VA, i=0, k=0, di=-1, dk=-1), dict(VA, i=1, k=1, di=1, dk=-1), dict(VA, i=0, k=1, di=0, dk=1), dict(VA, i=0, k=0, di=0, dk=0)]),
           dict(VB, entry="straight", params=[dict(VQ, i=1, k=1, d=d, dir=r) for r in (0, 1) for d in (-1, 0, 1)] +
                [dict(VA, i=0, k=1, d=d, dir=1) for d in (-1, 0, 1)] + [dict(VA, i=1, k=1, d=1, dir=0), dict(VA, i=0, k=1, d=-1, dir=0)] +
                [dict(VQ, i=1, k=1, d=0, dir=2)]),
           dict(VB, entry="many", params=[dict(VQ)]),
           dict(VB, entry="too_far", params=[dict(nr=3, nz=3, i0=2, k0=0, dir=r, d=2) for r in (0, 1)]),
           dict(VB, entry="azimuthal", params=[dict(VQ, i=1, k=0, di=a, dk=b) for a, b in ((0, 0), (1, 1), (-1, 0))] + [dict(VA, i=0, k=0, di=-1, dk=0)])])
ZQ = dict(nr=2, nz=2, i0=2, k0=1)
prop("P14",
     how="CurrentZigZag::current_distribution executed symbolically on particles with free start and end in given cells, on top of "
         "arbitrary currents; every node of every component is compared with the two-part zigzag path",
     bounds="moves within a cell and into each of the eight neighbours, one or two particles of two species; positions, charges, cell "
            "sizes and step unbounded",
     runs=[dict(harness="current_zz", variant="zigzag", entry="deposit",
                params=[dict(ZQ, i=1, k=0, di=a, dk=b, n=1) for a in (-1, 0, 1) for b in (-1, 0, 1)] + [dict(ZQ, i=1, k=0, di=0, dk=0, n=2)] +
                [dict(nr=2, nz=2, i0=0, k0=0, i=0, k=0, di=0, dk=0, n=1), dict(nr=2, nz=2, i0=0, k0=0, i=0, k=1, di=-1, dk=1, n=1)]),
           dict(harness="current_zz", variant="zigzag", entry="continuity")])

LQ = dict(nr=3, nz=2, i0=2, k0=1, walls=12, square=0)
LA = dict(nr=2, nz=3, i0=0, k0=0, walls=3, square=0)
LV = dict(nr=3, nz=3, i0=2, k0=1, walls=0, square=0)
KINDS = ((0, "default"), (1, "rect"), (2, "eigen"))
prop("P15",
     how="SpecieP::fullyfill_spatial_distribution and velocity_distribution executed symbolically with free densities, cell sizes and "
         "temperature; the random generator is the real one over a free source, so every stream is covered; places, weights and velocities "
         "are compared with what each random number stands for",
     bounds="2..12 macroparticles in domains of 2x3, 3x2 and 3x3 cells with and without outer walls; every random stream, density profile "
            "(flat only for the van der Corput and lattice fillings), cell size and temperature; the sampled Maxwell-Juettner energies are free",
     runs=[dict(harness="loading", variant="random", entry="random_places", params=[dict(LQ, n=2, flat=1), dict(LA, n=2, flat=0)]
                + [dict(LQ, nr=2, walls=w, n=2, flat=w & 1) for w in (4, 8)]),
           dict(harness="loading", entry="flat_places", params=[dict(LA, n=5, flat=1), dict(LQ, n=4, flat=1), dict(LQ, n=3, flat=1, walls=4), dict(LQ, n=3, flat=1, walls=8)]),
           dict(harness="loading", variant="centered", entry="centered_places", params=[dict(LQ, n=12, flat=1), dict(LQ, n=12, flat=1, walls=4), dict(LQ, n=12, flat=1, walls=8)]),
           dict(harness="smb", variant="eigen", entry="loaded", params=[dict(nr=6, nz=6, walls=15, pml_r=0, pml_z=0, pml_l=0, x=2, y=2)]),
           dict(harness="loading", variant="centered", entry="whole_cells", params=[dict(nr=2, nz=3), dict(nr=3, nz=4)], opts={"diverges": 300000}),
           dict(harness="loading", variant="regular", entry="whole_cells", params=[dict(nr=3, nz=2)], opts={"diverges": 300000}),
           dict(harness="loading", variant="regular", entry="regular_places", params=[
               dict(LV, square=1, n=9, flat=1), dict(LQ, nr=3, nz=3, square=4, n=36, flat=1), dict(LQ, nr=3, nz=3, square=14, n=36, flat=1),
               dict(LA, nr=3, nz=3, square=4, n=9, flat=1)])] +
          [dict(harness="loading", variant=v, entry="velocities", params=[dict(LV, n=2, kind=k)]) for k, v in KINDS] +
          [dict(harness="loading", variant=v, entry="sublight", params=[dict(LV, n=1, kind=k, hot=h) for h in (0, 1)]) for k, v in KINDS])
BM = dict(macro=12, bunches=3)
prop("P16",
     how="BeamP constructor, inject and reflect executed symbolically with free beam parameters, time and random stream; number, place, "
         "velocity, weight and cells of the injected particles and the bunch counter are compared with the beam's description",
     bounds="12 macroparticles in 3 bunches; domains of 3x4 cells in a column at the left wall; beam radius up to 9 (injection: 6) cells, up "
            "to two injected particles per step that fly up to three cells, three consecutive steps",
     runs=[dict(harness="beam", entry="shares", params=[BM]),
           dict(harness="beam", entry="injection", params=[dict(BM, i0=0, n=1, bunch=b) for b in (0, 1, 3)] + [dict(BM, i0=3, n=2, bunch=1)]),
           dict(harness="beam", entry="amount", params=[dict(BM, steps=3)]),
           dict(harness="smb", entry="injected", params=[dict(nr=4, nz=4, walls=15, pml_r=0, pml_z=0, pml_l=0, x=2, y=2, beams=1),
                                                         dict(nr=3, nz=6, walls=15, pml_r=0, pml_z=0, pml_l=0, x=1, y=3, beams=2)]),
           dict(harness="beam", entry="beam_reflect", params=[dict(BM, i0=0, axis=1), dict(BM, i0=2, axis=0)])])

def area(nr, nz, walls, pr, pz, x, y, pl=None, **k):
    return dict(nr=nr, nz=nz, walls=walls, pml_r=pr, pml_z=pz, pml_l=pz if pl is None else pl, x=x, y=y, **k)


prop("P17",
     how="SMB with its real domains executed symbolically next to an undivided SMB over the same free fields: fields after one or "
         "more steps, halos, the field a particle feels at a free place and the current of a free move are compared node by node",
     bounds="areas of 6x6 to 9x9 cells divided in 1x2, 2x2, 2x3, 3x2 and 3x3 domains of equal size, with and without absorber, one to two "
            "steps (thorough three); particles near the common corner of four domains; single-threaded, one process",
     runs=[dict(harness="smb", entry="fields", params=[area(6, 6, 15, 2, 2, 2, 2, pl=1, steps=1), area(6, 6, 15, 2, 2, 2, 2, steps=2),
                                                       area(6, 9, 15, 3, 1, 2, 3, pl=4, steps=1), area(9, 6, 15, 4, 0, 3, 2, steps=1),
                                                       area(8, 3, 15, 3, 1, 4, 1, steps=1), area(3, 8, 15, 1, 3, 1, 4, steps=1), area(10, 4, 15, 2, 1, 5, 2, steps=1)]),
           dict(harness="smb", variant="nopml", entry="fields", params=[area(8, 6, 15, 0, 0, 2, 2, steps=1)]),
           dict(harness="smb", entry="fields", tier="thorough", params=[area(6, 6, 15, 2, 0, 2, 2, steps=3), area(9, 9, 15, 4, 4, 3, 3, steps=1)]),
           dict(harness="smb", entry="currents", params=[area(6, 6, 15, 2, 2, 2, 2), area(9, 9, 15, 3, 1, 3, 3), area(8, 4, 15, 3, 1, 2, 1), area(8, 4, 15, 3, 1, 4, 1),
                                                         area(4, 8, 15, 1, 1, 2, 4), area(2, 10, 15, 0, 1, 1, 5)]),
           dict(harness="smb", entry="felt", params=[area(6, 6, 15, 0, 0, 2, 2, ci=a, ck=b) for a in (2, 3) for b in (2, 3)]),
           dict(harness="smb", entry="moving", params=[area(6, 6, 15, 0, 0, 2, 2, ci=a, ck=b, di=c, dk=d) for a, b, c, d in
                                                       ((2, 2, 1, 0), (2, 2, 1, 1), (2, 3, 1, -1), (3, 2, -1, 1), (3, 3, -1, -1), (1, 3, 0, -1))]),
           dict(harness="smb", variant="zigzag", entry="moving", params=[area(6, 6, 15, 0, 0, 2, 2, ci=a, ck=b, di=c, dk=d) for a, b, c, d in
                                                                         ((2, 2, 1, 0), (3, 3, -1, -1))])])
prop("P18",
     how="SMB constructor, particles_runaway_collector and advance_particles executed symbolically with free species, beams, cells and "
         "velocities; ranges, walls and species of every domain, and the whereabouts of every particle are compared with the undivided area",
     bounds="2x3, 3x2 and smaller divisions; one or two particles in any domain with any cell up to two cells outside the area; one free "
            "particle near the common corner of four domains that moves up to a cell",
     runs=[dict(harness="smb", entry="partition", params=[area(6, 6, 15, 2, 2, 2, 3, bunches=2), area(6, 9, 7, 3, 2, 3, 3, bunches=0), area(8, 10, 15, 3, 2, 4, 5, bunches=1)]),
           dict(harness="smb", variant="nopml", entry="partition", params=[area(6, 6, 15, 0, 0, 3, 2, bunches=0)]),
           dict(harness="smb", variant="zigzag", entry="partition", params=[area(4, 4, 15, 1, 1, 2, 2, bunches=1)]),
           dict(harness="smb", variant="vay", entry="partition", params=[area(4, 4, 15, 1, 1, 2, 2, bunches=1)]),
           dict(harness="smb", variant="hc", entry="partition", params=[area(4, 4, 15, 1, 1, 2, 2, bunches=1)]),
           dict(harness="smb", variant="borisrel", entry="partition", params=[area(4, 4, 15, 1, 1, 2, 2, bunches=1)]),
           dict(harness="smb", entry="runaway", params=[area(6, 6, 15, 0, 0, 2, 3, n=1), area(4, 2, 15, 0, 0, 2, 1, n=2), area(2, 4, 15, 0, 0, 1, 2, n=2)]),
           dict(harness="smb", variant="boris", entry="free_step", params=[area(6, 6, 15, 0, 0, 2, 2, ci=c, ck=c) for c in (2, 3)]),
           dict(harness="smb", variant="eigen", entry="loaded", params=[area(6, 6, 15, 0, 0, 2, 2), area(4, 6, 7, 0, 0, 1, 3)]),
           dict(harness="smb", entry="runaway", tier="thorough", params=[area(4, 4, 15, 0, 0, 2, 2, n=2)]),
           dict(harness="smb", entry="free_step", tier="thorough", params=[area(6, 6, 15, 0, 0, 2, 2, ci=2, ck=2)])])
prop("P19",
     how="OutController, OutWriter and the HDF5 engine executed symbolically over an in-memory HDF5 stand-in with the same error behaviour; "
         "every value written, its place, its slice and the set of slices written are compared with the maps of the domains",
     bounds="areas of 4x6 and 6x6 cells in 2x2 and fewer domains, every shape with its borders inside domains, at domain borders and at the "
            "area's borders, up to six probes, up to four steps with a clock off by up to 1e-6 relative; two particles for derived maps",
     runs=[dict(harness="output", variant="hdf5", entry="dump", params=[
               area(4, 6, 15, 0, 0, 2, 2, shape=s, r0=a, z0=b, r1=c, z1=d, step=k) for s, a, b, c, d, k in
               ((0, 0, 0, 4, 6, 0), (0, 1, 2, 3, 5, 2), (0, 0, 1, 2, 3, 1), (0, 2, 3, 4, 5, 1), (0, 2, 1, 3, 2, 0), (1, 0, 0, 0, 3, 1), (1, 0, 0, 0, 5, 0),
                (1, 0, 0, 0, 0, 0), (2, 0, 0, 2, 0, 1), (2, 0, 0, 0, 0, 0), (2, 0, 0, 1, 0, 3), (3, 0, 0, 2, 3, 1), (3, 0, 0, 1, 5, 0), (3, 0, 0, 3, 0, 2))]),
           dict(harness="output", variant="hdf5", entry="dump", params=[area(4, 6, 15, 0, 0, 1, 1, shape=s, r0=1, z0=2, r1=4, z1=5, step=1) for s in (0, 1)]
                + [area(6, 6, 15, 0, 0, 3, 2, shape=0, r0=1, z0=1, r1=5, z1=6, step=1)]),
           dict(harness="output", variant="hdf5", entry="several", params=[area(4, 6, 15, 0, 0, 2, 2), area(4, 6, 15, 0, 0, 1, 3)]),
           dict(harness="output", variant="hdf5", entry="schedule", params=[area(4, 6, 15, 0, 0, 2, 2, shape=0, every=3, steps=4, **{"from": 1}),
                                                                            area(4, 6, 15, 0, 0, 1, 2, shape=0, every=1, steps=3, **{"from": 0}),
                                                                            area(4, 6, 15, 0, 0, 1, 1, shape=0, every=2, steps=4, **{"from": 7})]),
           dict(harness="output", variant="hdf5", entry="density", params=[area(4, 6, 15, 0, 0, 2, 2, also=a, ci=c, ck=k) for a, c, k in
                                                                           ((0, 2, 2), (10, 2, 2), (9, 1, 3), (12, 2, 3), (11, 2, 2))]),
           dict(harness="output", variant="hdf5", entry="means", params=[area(6, 6, 15, 0, 0, 2, 2, also=0, main=m, ci=1, ck=4) for m in (10, 11, 12, 13, 14)]),
           dict(harness="output", variant="hdf5", entry="own_map", params=[area(5, 5, 15, 0, 0, 1, 1, main=m) for m in range(9, 15)]),
           dict(harness="output", variant="hdf5", entry="border_means", params=[area(6, 6, 15, 0, 0, 2, 2, also=0, main=14, ci=3, ck=2)]),
           dict(harness="output", variant="hdf5", entry="schedule", tier="thorough", params=[
               area(4, 6, 15, 0, 0, 2, 2, shape=0, every=e, steps=6, **{"from": f}) for e in (1, 2, 5) for f in (0, 3, 1000)]),
           dict(harness="output", variant="hdf5", entry="density", tier="thorough", params=[
               area(6, 6, 15, 0, 0, 2, 2, also=a, ci=c, ck=k) for a in (0, 10, 11, 13) for c in (2, 3) for k in (2, 3)])])


def conf(vary=0, nr=4, nz=8, x=2, y=4, most=60, **kw):
    return dict(nr=nr, nz=nz, x=x, y=y, most=most, vary=vary, **kw)


prop("P20",
     how="Cfg's constructor executed symbolically over a document whose numbers are symbolic (the JSON parser is a stand-in); every field of the "
         "resulting geometry, time, species, beams and probes is compared with the document, and wrong documents must stop the program",
     bounds="areas of 3x2 and 4x8 cells; one group of numbers symbolic at a time (sizes, times, absorber depths, densities, beam quantities, total of "
            "macroparticles up to 60, whole numbers over small ranges); up to three species, two beams, one probe anywhere in or around the area; 42 entries missing or mistyped",
     runs=[dict(harness="config", variant="config", entry="geometry", params=[conf(v) for v in (8, 10, 11, 12, 13)]),
           dict(harness="config", variant="config_single", entry="geometry", params=[conf(8), conf(12, x=3)]),
           dict(harness="config", variant="config_zz", entry="geometry", params=[conf(8)]),
           dict(harness="config", variant="config", entry="matter", params=[conf(v, species=2, beams=0) for v in (1, 2, 3, 9, 14)]
                + [conf(v, species=2, beams=2) for v in (1, 4, 5, 6, 9, 15)] + [conf(v, species=3, beams=1) for v in (2, 9, 14)]
                + [conf(v, nr=3, nz=2, x=1, y=1, species=2, beams=1) for v in (16, 17)]),
           dict(harness="config", variant="config", entry="identities",
                params=[conf(0, species=2, beams=2, hashes=3), conf(0, species=3, beams=1, hashes=2)]),
           dict(harness="config", variant="config", entry="probes", params=[conf(0, nr=3, nz=2, x=1, y=1, shape=0), conf(7, nr=3, nz=2, x=1, y=1, shape=3)]
                + [conf(0, shape=s) for s in (1, 2, 3)]),
           dict(harness="config", variant="config", entry="outside", params=[conf(0, nr=3, nz=2, x=1, y=1, shape=0)] + [conf(0, shape=s) for s in (1, 2, 3)]),
           dict(harness="config", variant="config", entry="incomplete", params=[conf(0, key=k, wrong=w) for k in range(26) for w in (0, 1)]),
           dict(harness="config", variant="config", entry="incomplete_item", params=[conf(0, key=k) for k in range(21)]),
           dict(harness="config", variant="config", entry="contradictions", params=[conf(0, which=w) for w in range(4)]
                + [conf(0, which=4, x=3, y=4), conf(0, which=4, nz=6), conf(0, which=4, x=0), conf(0, which=4, nr=5, x=2), conf(0, which=4, nr=6, x=2, nz=9, y=3)]),
           dict(harness="config", variant="config", entry="limits", params=[conf(0, order=0, which=0), conf(10, order=1, which=0)]),
           dict(harness="config", variant="config", entry="matter", tier="thorough", params=[conf(v, species=2, beams=2) for v in (16, 17)]),
           dict(harness="config", variant="config", entry="probes", tier="thorough", params=[conf(7, shape=s) for s in (0, 1, 2, 3)]),
           dict(harness="config", variant="config", entry="outside", tier="thorough", params=[conf(0, shape=0)])])
prop("P21",
     how="ExternalFields inside SMB's domains, the pushers' use of it and its configuration executed symbolically; the field at every node, the field felt at a "
         "free place of a divided and an undivided area, and the velocities after a push with both fields against a push with their sum are compared",
     bounds="6x6, 4x9 and 8x4 cells in 1x1, 1x2, 2x2 and 3x3 domains, both kinds of supported profile, up to two steps; particles of any velocity, charge and mass, electric or magnetic fields",
     runs=[dict(harness="external", variant="external", entry="field", params=[
               area(6, 6, 15, 2, 0, 2, 2, electric=1, magnetic=0, steps=1, ci=2, ck=3), area(6, 6, 15, 2, 0, 2, 2, electric=1, magnetic=1, steps=2, ci=3, ck=2),
               area(6, 6, 15, 0, 2, 1, 2, electric=0, magnetic=1, steps=1, ci=2, ck=2), area(6, 6, 15, 0, 0, 3, 3, electric=1, magnetic=1, steps=1, ci=2, ck=4),
               area(6, 6, 15, 0, 0, 2, 2, electric=0, magnetic=0, steps=1, ci=2, ck=2),
               area(4, 9, 15, 2, 1, 1, 1, electric=1, magnetic=1, steps=1, ci=2, ck=6), area(8, 4, 15, 1, 1, 1, 1, electric=1, magnetic=1, steps=1, ci=5, ck=2)]),
           dict(harness="external", variant="external_nopml", entry="field", params=[area(6, 6, 15, 0, 0, 2, 1, electric=1, magnetic=1, steps=1, ci=2, ck=2)]),
           dict(harness="external", variant="external", entry="unknown", params=[area(6, 6, 15, 0, 0, 1, 1, which=w, of=f) for w in range(5) for f in (0, 1)]),
           dict(harness="external", variant="external", entry="push", params=[dict(magnetic=m, fixed=0) for m in (0, 1)])]
          + [dict(harness="external", variant="external_" + v, entry="push", opts=SQ, params=[dict(magnetic=m, fixed=0) for m in (0, 1)]) for v in ("vay", "hc")]
          + [dict(harness="config", variant="config_external", entry=e, params=[conf(0)]) for e in ("external", "no_external")])


def crel(k, ids, **kw):
    return dict(harness="collide", entry="pair_rel", params=[dict(scheme=k, id=i) for i in ids],
                **(dict(opts={"divcheck": 0}) if k == 2 else {}), **kw)


def crowds(*xs, **kw):
    return dict(harness="collide", entry="pairing", params=[dict(scheme=k, ne=a, ni=b, at=c) for k in (0, 1, 2) for a, b, c in xs], **kw)


prop("P22",
     how="collide_single of each scheme executed symbolically over all random draws, Coulomb logarithms and weights (TA77S also over all "
         "velocities, masses and charges; the relativistic schemes for listed velocities and masses with rational Lorentz factors): momentum, "
         "energy, deflection variance or s-parameter; collide() executed with exactly one deflecting collision at a time, which "
         "shows who collides with whom; correct_velocities() with arbitrary velocities before and after; sorting; a domain's whole step with all "
         "shuffles",
     bounds="one pair; groups of up to 7 electrons and 7 ions in one of 2x2 cells (thorough: 11); correction of 2 particles in 3 dimensions and 3 in one; "
            "SK98 outside the zeros of its angle's denominator",
     runs=[dict(harness="collide", entry="pair_ta", params=[dict(along=0), dict(along=1)]),
           dict(harness="collide", entry="pair_ta_weights", params=[dict(along=0, first=1), dict(along=0, first=0), dict(along=1, first=1)]),
           crel(1, (0, 2, 3, 4, 5, 6, 7)), crel(2, (0, 1, 2, 3, 4, 5, 6, 7)),
           dict(harness="collide", entry="pair_p12_weights", params=[dict(first=0), dict(first=1)]),
           dict(harness="collide", entry="pair_p12_cold", params=[
               dict(ka=2000, kb=4000, na=80, nb=20), dict(ka=4000, kb=2000, na=10, nb=300), dict(ka=1000, kb=1500, na=90, nb=80),
               dict(ka=1000, kb=20000, na=100, nb=71), dict(ka=2000, kb=2000, na=60, nb=69)]),
           crowds((2, 2, 0), (5, 3, 3), (3, 5, 3), (4, 3, 1), (7, 2, 2), (1, 6, 1)),
           crowds((3, 3, 2), (2, 7, 0), (6, 4, 1), (5, 1, 3), (7, 5, 0), (8, 11, 3), (11, 8, 2), tier="thorough"),
           dict(harness="collide", entry="sorting"),
           dict(harness="collide", entry="correction", params=[dict(n=2, dim=1, kind=0), dict(n=2, dim=3, kind=0), dict(n=2, dim=3, kind=1), dict(n=3, dim=1, kind=1)]),
           dict(harness="collide", entry="correction", params=[dict(n=3, dim=2, kind=1)], tier="thorough"),
           dict(harness="collide_step", entry="domain_step", variant="ta77s", params=[dict(ne=2, ni=2)]),
           dict(harness="collide_step", entry="domain_step", variant="p12", params=[dict(ne=2, ni=2), dict(ne=3, ni=2)]),
           dict(harness="collide_step", entry="domain_step", variant="sk98", params=[dict(ne=2, ni=2)]),
           ])


MJ_CELLS = [(0, 740), (1, 700), (2, 660), (3, 530), (4, 240)]        # temperature, first cell above gamma = 1


def cells(entry, first, last, step, **kw):
    return [dict(kw, **{"from": a, "cells": min(step, last - a)}) for a in range(first, last, step)]


DOM = {"domain": 1}
prop("P23",
     how="the sampler executed with every uniform number a symbolic place inside one cell of its tables; the energy it returns is compared, in logarithm, "
         "with the inverse of the cumulative distribution computed independently (docs/mj_ref.py, from the incomplete gamma function) at the ends of the "
         "cell; outside the tables with the asymptotic expansion; the rejection is compared with U < v/c",
     bounds="all 999 cells of the classical table, any temperature below 0.1 mc^2; relativistic: temperatures 0.1, 0.5, 1, 8, 512 mc^2, every 8th block of cells "
            "from gamma = 1 up (thorough: all of them), 1e5 mc^2 for the cold tail; at most two attempts; relative error 1e-3 (tails 1e-2); "
            "exponentials and logarithms exact",
     runs=[dict(harness="thermal", entry="classical", params=cells("classical", 0, 999, 111), opts=DOM),
           dict(harness="thermal", entry="cold", opts=DOM), dict(harness="thermal", entry="hot", opts=DOM),
           dict(harness="thermal", entry="juettner_cold", opts=DOM),
           dict(harness="thermal", entry="juettner", opts=DOM,
                params=[p for t, a in MJ_CELLS for p in cells("juettner", a, 865, 20, T=t)[::3]]),
           dict(harness="thermal", entry="juettner", opts=DOM, tier="thorough",
                params=[p for t, a in MJ_CELLS for p in cells("juettner", a, 999, 60, T=t)]),
           dict(harness="thermal", entry="rejected", opts=DOM,
                params=[{"T": 1, "from": 720, "then": 760}, {"T": 0, "from": 770, "then": 760}, {"T": 4, "from": 300, "then": 700},
                        {"T": 2, "from": 800, "then": 664}, {"T": 3, "from": 540, "then": 541}]),
           ])


def sig(*kinds, **kw):
    return [dict({"steps": 2, "x": 1, "y": 1, "kinds": k}, **kw) for k in kinds]


prop("P24",
     how="the program's main() executed with the real writers over a file that knows whether it is open, the simulated area replaced by a recorder of what "
         "it is asked for; the step length and end time symbolic; signals delivered to the handlers main() installed, each at a symbolic point: in any phase, "
         "in the middle of a dump, while the file is opened or closed, during a pause",
     bounds="up to 4 steps, 1 or 2 domains, one probe; up to 3 signals (thorough: 4) of USR1, USR2, TERM, INT, SEGV; points are the calls out of main(), "
            "the handlers' log lines and every access to the file; handlers do not interrupt themselves, nor USR1 and USR2 each other",
     runs=[dict(harness="mainloop", entry="steps_", variant="signals",
                params=[dict(steps=n, x=x, y=y) for n, x, y in ((1, 1, 1), (2, 1, 1), (3, 1, 2), (4, 2, 1), (5, 2, 2))]),
           dict(harness="mainloop", entry="signals", variant="signals",
                params=sig(1, 2, 3, 4, 5, 21, 12, 11, 22, 31, 42, 53, 121, 212, 321, 421) + sig(21, 31, steps=4, x=2) + sig(21, steps=3, y=2)),
           dict(harness="mainloop", entry="signals", variant="signals", tier="thorough",
                params=sig(2121, 1212, 3121, 521, 121, steps=3) + sig(121, 211, 321, steps=5, y=2)),
           dict(harness="mainloop", entry="command_line", variant="signals",
                params=[{"case": c, "exit": e} for c, e in ((0, -1), (1, -1), (2, 1), (3, 0), (4, -1), (5, -1), (6, 1), (7, -1))]),
           ])


prop("P25",
     how="the functions executed with every argument symbolic; Lorentz factors, energies and momenta compared with the exact relativistic relations (the "
         "velocity written through its Lorentz factor, so that every relation is rational), the slow-particle branch with the classical energy; the "
         "refusals by arguments outside the domain; the plasma formulas and constants with the textbook ones; every operator of the vector with its "
         "components",
     bounds="none on the arguments (real arithmetic, no rounding); double precision; plasma formulas and constants within 0.3% and 1%",
     runs=[dict(harness="formulas", entry=e) for e in ("kinematics", "momenta", "plasma", "collisions", "constants", "vectors")]
         + [dict(harness="formulas", entry="refused", params=[{"case": c} for c in range(6)])])


def ranks(nr, nz, n, x, y, pml=0, **k):
    return dict(nr=nr, nz=nz, walls=15, pml_r=pml, pml_z=pml, pml_l=pml and pml + 1, n=n, x=x, y=y, **k)


RX = [(4, 8, 2, 1, 1), (8, 16, 2, 2, 2), (8, 12, 3, 2, 1)]
RX_T = [(12, 24, 3, 3, 2), (8, 20, 5, 2, 1)]
RT = [(4, 8, 2, 1, 1, 1), (4, 8, 2, 2, 1, 1), (4, 12, 2, 1, 3, 1), (4, 12, 3, 1, 1, 2)]
RT_T = [(4, 12, 3, 2, 1, 2), (4, 16, 2, 2, 2, 2)]
prop("P26",
     how="SMB built with ENABLE_MPI over a message passing stand-in in which every rank is a cooperative thread of the symbolic executor and a send blocks until "
         "it is received; the ranks' domains and those of one undivided block get the same free fields, currents and particles, the real exchange runs in both, and "
         "every node and particle is compared; a wait without end is a violation",
     bounds="2, 3 (thorough 5) ranks of 1x1 to 2x2 (thorough 3x2) domains of 4 or more cells along z; one or two particles per exchange with symbolic cells, crossing "
            "less than a domain; one field step; main()'s own MPI start-up and the parallel data file are not included, the slices are made as main() makes them",
     runs=[dict(harness="ranks", variant="mpi", entry="exchange", params=[ranks(*r, f=f) for r in RX for f in (0, 1, 3)]),
           dict(harness="ranks", variant="mpi", entry="step", params=[ranks(4, 8, 2, 1, 1), ranks(8, 8, 2, 2, 1)]),
           dict(harness="ranks", variant="mpi_nopml", entry="step", params=[ranks(4, 12, 3, 1, 1)]),
           dict(harness="ranks", variant="mpi", entry="travel", opts={"diverges": 500000}, params=[ranks(*r[:5], many=r[5]) for r in RT]),
           dict(harness="ranks", variant="mpi", entry="profile", params=[ranks(4, 16, 2, 2, 2, 2), ranks(8, 12, 3, 2, 1, 3)]),
           dict(harness="ranks", variant="mpi", entry="exchange", tier="thorough", params=[ranks(*r, f=f) for r in RX_T for f in (0, 1, 3)]),
           dict(harness="ranks", variant="mpi", entry="travel", tier="thorough", opts={"diverges": 2000000}, params=[ranks(*r[:5], many=r[5]) for r in RT_T])])


def oa(*a, **k):
    return area(*a, reverse=1, **k)


def om(ci, ck, di, dk, pi, pj, x=3, y=2, nr=9, nz=4, **k):
    return oa(nr, nz, 15, 0, 0, x, y, ci=ci, ck=ck, di=di, dk=dk, pi=pi, pj=pj, mirror=1, species=1, **k)


prop("P27",
     how="SMB built with OpenMP; the executor runs the threads of every parallel region one after another, up or down, and records the memory every one reads and writes "
         "between two barriers, atomic accesses and locks set apart: two threads that touch the same bytes, one of them writing, without a common lock or an "
         "atomic access are a violation (replayed with ThreadSanitizer); the result is compared with that of one thread",
     bounds="a thread per domain: grids of 3x2, 3x3 and 2x1 domains, one particle and its mirror image moved through symbolic places, cells up to one domain away; fields for one "
            "step; accesses inside the C and C++ libraries are not recorded, rand() is taken to be protected by the library",
     runs=[dict(harness="omp", variant="omp", entry="fields", params=[oa(12, 12, 15, 2, 2, 3, 3)]),
           dict(harness="omp", variant="omp_nopml", entry="fields", params=[oa(9, 4, 15, 0, 0, 3, 2)]),
           dict(harness="omp", variant="omp_external", entry="fields", params=[oa(9, 4, 15, 1, 1, 3, 2)]),
           dict(harness="omp", variant="omp", entry="particles", params=[om(2, 0, 1, -1, 0, 1), om(2, 0, 1, 0, 2, 1)]),
           dict(harness="omp", variant="omp_zigzag", entry="currents", params=[om(2, 1, 1, 1, 0, 1)]),
           dict(harness="omp", variant="omp", entry="currents", params=[om(2, 1, 1, 1, 9, 1), om(0, 1, 0, -1, 1, 1)]),
           dict(harness="omp", variant="omp", entry="currents", params=[om(1, 2, 0, -1, 9, 1, x=2, y=3, nr=4, nz=9)]),
           dict(harness="omp", variant="omp", entry="particles", params=[om(0, 2, -1, 1, 1, 1, x=2, y=3, nr=4, nz=9)]),
           dict(harness="omp", variant="omp_eigen", entry="initial", params=[oa(4, 2, 15, 0, 0, 2, 1, n=1, species=1, temperature=0)]),
           dict(harness="omp", variant="omp_rect", entry="initial", params=[oa(4, 2, 15, 0, 0, 2, 1, n=1, species=1, temperature=0)]),
           dict(harness="omp", variant="omp", entry="initial", params=[oa(2, 2, 15, 0, 0, 2, 1, n=2, species=1, temperature=1000, fixed_random=1)]),
           dict(harness="omp", variant="omp", entry="injected", params=[oa(4, 2, 15, 0, 0, 2, 1, beams=2)]),
           dict(harness="omp_random", variant="omp", entry="random_numbers", params=[dict(n=3, reverse=r) for r in (0, 1)]),
           dict(harness="omp_collide", variant="omp_ta77s", entry="collisions", opts={"sqrt_assume": 1, "divcheck": 0},
                params=[oa(4, 2, 15, 0, 0, 2, 1, ci=0, ck=0, di=0, dk=0, pi=9, mirror=1, species=2, fixed_random=1)]),
           dict(harness="omp_collide", variant="omp_sk98", entry="collisions", opts={"sqrt_assume": 1, "divcheck": 0},
                params=[oa(4, 2, 15, 0, 0, 2, 1, ci=0, ck=0, di=0, dk=0, pi=9, mirror=1, species=2, fixed_random=1)]),
           dict(harness="omp_collide", variant="omp_p12", entry="collisions", opts={"sqrt_assume": 1, "divcheck": 0},
                params=[oa(4, 2, 15, 0, 0, 2, 1, ci=0, ck=0, di=0, dk=0, pi=9, mirror=1, species=2, fixed_random=1)])])
