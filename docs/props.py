"""Source of properties.jsonl and MANIFEST.json (python3-vt docs/props.py rewrites both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
P = []
NA = []


def p(pid, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))
    if observe:
        P[-1]["anchors"]["observe_at"] = observe


NOT = "The stable tests only look at physical constants and time arithmetic; they never call this code. "

p("P01", "Field update obeys Faraday's law and creates no magnetic charge",
  "Advancing the magnetic field by one step changes every magnetic field node by exactly minus dt/mu0 times the discrete "
  "cylindrical curl of the electric field, at the axis, in the bulk and next to every wall. "
  "Consequently the discrete divergence of H in every cell is the same after the step as before, for any field state.",
  ["inputs", "configurations", "histories"], "every electric and magnetic field state, every cell size and time step, domains at "
  "the axis, in the bulk and at outer walls", NOT + "A sampled field cannot exclude an error at one boundary row or one component.",
  ["src/maxwellSolver/maxwellSolverYee.cpp", "include/maxwellSolver.hpp"],
  [("H update", "src/maxwellSolver/maxwellSolverYee.cpp:calc_field_h")])
p("P02", "Electric field update obeys Ampere's law and keeps Gauss' law",
  "Advancing the electric field by one step applies the semi-implicit Ampere update (curl H, conduction current, particle "
  "current) to every interior node with the special axis and wall rows, and leaves tangential wall nodes untouched. "
  "Where the medium does not conduct, the discrete divergence of eps E around each interior node changes by exactly minus dt "
  "times the discrete divergence of the current.",
  ["inputs", "configurations", "histories"], "every E, H, current, conductivity and permittivity state, every cell size and step",
  NOT + "Charge conservation is an identity over all current states.",
  ["src/maxwellSolver/maxwellSolverYee.cpp"], [("E update", "src/maxwellSolver/maxwellSolverYee.cpp:calc_field_e")])
p("P03", "A closed cavity neither creates nor loses field energy by itself",
  "In a closed area with conducting walls, one full leap-frog step changes the discrete electromagnetic energy by exactly the "
  "work done by the particle current minus the non-negative loss in the absorbing layer. "
  "Without current and absorber the energy is conserved exactly.",
  ["inputs", "histories"], "every field, current and conductivity state of a closed box, every step and cell size",
  NOT + "Energy drift shows only after long runs of particular field states.",
  ["src/maxwellSolver/maxwellSolverYee.cpp"], [("leap-frog step", "src/maxwellSolver/maxwellSolverYee.cpp:calc_field_h, calc_field_e")])
p("P04", "The absorbing layer has the configured quadratic profile",
  "Inside an absorbing layer the conductivity rises quadratically with depth from the configured minimum to the configured "
  "maximum, layers add where they overlap, it is never negative and it is zero outside every layer. "
  "The profile at a place of the simulated area does not depend on how the area is split into domains.",
  ["configurations"], "every layer thickness, conductivity pair, cell size and domain offset",
  NOT, ["src/maxwellSolver/maxwellSolverYee.cpp", "include/geometry.hpp"],
  [("layer set-up", "src/maxwellSolver/maxwellSolverYee.cpp:set_pml")])
p("P05", "Halo exchange transports every boundary value to the right neighbour cell",
  "Exchanging the overlay of two neighbouring grids (in r, in z, or diagonally) adds each side's halo values onto the matching "
  "cells of the other side, leaves both sides equal on the shared cells, and changes no other cell. "
  "Grids whose shared sides differ in length are refused, and clearing the overlay clears exactly the halo.",
  ["inputs", "configurations"], "every content of both grids, square and non-square shapes",
  NOT + "An index slip in one corner shows only for particular shapes and contents.",
  ["include/algo/grid.hpp", "include/algo/grid3d.hpp", "src/SMB.cpp"],
  [("exchange", "include/algo/grid.hpp:overlay_x, overlay_y, overlay_xy, overlay_set")])
p("P06", "Without an electric field no particle changes its energy",
  "For every pusher the build can select, a particle that sees no field keeps its velocity exactly, and a particle that sees "
  "only a magnetic field keeps its speed and its velocity component along the field. "
  "The field is taken at the particle's own position.",
  ["inputs", "configurations"], "every sub-light velocity, magnetic field, charge, mass, time step and pusher",
  NOT + "Energy conservation is an identity over all momenta and fields.",
  ["src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp", "src/phys/rel.cpp"],
  [("pushers", "src/pusher/*.cpp:operator()")])
p("P07", "Every pusher applies the Lorentz force of its own scheme, species and particle",
  "In a purely electric field the relativistic momentum per mass grows by q E dt / m (velocity, for the classical pusher and the "
  "adaptive one below its threshold) and the speed stays below c; in combined fields the step satisfies the defining equation "
  "of the selected scheme (Boris, Vay, Higuera-Cary). "
  "Each particle is pushed exactly once per step with its species' charge and mass, and nothing but its velocity changes.",
  ["inputs", "configurations"], "every velocity, E, H, charge, mass, time step and pusher",
  NOT + "A wrong component or factor shows only for particular orientations.",
  ["src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp", "src/phys/rel.cpp"],
  [("pushers", "src/pusher/*.cpp:operator()")])

# -- more properties are appended by the files next to this one
for f in sorted(os.listdir(HERE)):
    if f.startswith("p_") and f.endswith(".py"):
        exec(open(os.path.join(HERE, f)).read())

NOTE = ("symbolic execution of the compiled (LLVM IR) real code over the reals, every obligation decided by z3 for all values within "
        "the bounds below; outside: floating-point rounding, threads, sizes beyond the bounds. Bounds: ")


def main():
    import checks
    P.sort(key=lambda x: x["id"])
    with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    na = {x["property"] for x in NA}
    m = dict(version=1, setup_cmd="python3-vt engine/setup_check.py", checks=[], not_applicable=NA,
             notes="Commands run in /verif; python3-vt is the preinstalled tooling venv (z3). docs/props.py regenerates this file.")
    for x in P:
        i = x["id"]
        if i in na:
            continue
        c = checks.PROPS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="python3-vt engine/run.py %s --tier quick" % i,
            thorough_cmd="python3-vt engine/run.py %s --tier thorough" % i,
            technique=c.get("technique", "symbolic execution of LLVM IR + z3 (SMT over reals and bit-vectors)"),
            level="model_checking", level_note=NOTE + c["bounds"]))
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    import checks
    import re
    root = os.path.join(HERE, "..")
    o = [open(os.path.join(HERE, "design_head.md")).read()]
    na = {x["property"]: x["reason"] for x in NA}
    for x in P:
        i = x["id"]
        o.append("### %s  %s\n\n" % (i, x["title"]))
        if i in na:
            o.append("Not applicable: %s\n\n" % na[i])
            continue
        c = checks.PROPS[i]
        hs = sorted({"`%s/%s`" % (r["harness"], r["entry"]) for r in c["runs"]})
        nq = sum(len(r.get("params", [{}])) for r in c["runs"] if r.get("tier") != "thorough")
        nt = sum(len(r.get("params", [{}])) for r in c["runs"])
        o.append("- How: %s.\n- Bounds: %s.\n- Encoded runs: %d quick, %d thorough; entries %s.\n" % (
            c["how"].rstrip("."), c["bounds"].rstrip("."), nq, nt, ", ".join(hs)))
        v = sorted({r.get("variant", "default") for r in c["runs"]})
        o.append("- Build variants: %s.\n\n" % ", ".join(v))
    k = json.load(open(os.path.join(root, "known_findings.json")))
    o.append("## 4. Genuine defects repaired (`fix:` commits in /repo)\n\n")
    for f in k:
        if f["status"] == "fixed":
            o.append("- %s, %s\n" % (f["id"], f["what"]))
    o.append("\n## 5. Known findings (genuine, recorded and not repaired)\n\n")
    for f in k:
        if f["status"] != "fixed":
            o.append("- %s (%s, entry `%s`, obligation `%s`): %s\n" % (f["id"], f["property"], f["entry"], f["label"], f["what"]))
    o.append("\n## 6. Planted bugs and which checks catch them\n\n| bug | property | caught | what it breaks |\n|---|---|---|---|\n")
    try:
        ca = json.load(open(os.path.join(HERE, "catch.json")))
    except OSError:
        ca = {}
    for d in sorted(os.listdir(os.path.join(root, "seeded"))):
        m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
        o.append("| %s | %s | %s | %s |\n" % (d, m["property"], ca.get(d, "not run"), m["what_it_breaks"].replace("|", "/")))
    o.append(open(os.path.join(HERE, "design_tail.md")).read())
    with open(os.path.join(root, "DESIGN.md"), "w") as f:
        f.write("".join(o))


if __name__ == "__main__":
    main()
    if os.path.isdir(os.path.join(HERE, "..", "seeded")):
        design()
