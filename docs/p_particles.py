p("P10", "A particle sees the volume weighted field of the four nodes around it",
  "Each component of the electric and magnetic field at a particle is the average of the four nodes of that component around "
  "it, weighted in r with the overlap of the particle's one cell wide ring with each node's ring over the node's ring volume, and linearly in z. "
  "Every component uses its own staggered node places and nothing of the other components.",
  ["inputs"], "every place of a particle in a domain, every node value and cell size",
  NOT + "A wrong node index or weight biases trajectories without ever failing.",
  ["include/maxwellSolver.hpp", "src/maxwellSolver/maxwellSolverYee.cpp"],
  [("gather", "src/maxwellSolver/maxwellSolverYee.cpp:get_field_e, get_field_h, get_field_dummy")])
p("P11", "The density map counts every particle exactly once",
  "The density of a species is the sum of its particles' clouds: each particle is spread over the four nodes around it by ring "
  "overlap in r and linearly in z, each node divided by its own ring volume. "
  "Summed over all nodes times their volume it gives the total weight, everything else is zero, and what the map held before "
  "does not matter.",
  ["inputs", "histories"], "every number, place and weight of particles, every cell size, domains at the axis and away from it",
  NOT + "Conservation must hold for all positions, the axis branches included.",
  ["include/algo/weighter.hpp", "src/specieP.cpp"], [("scatter", "include/algo/weighter.hpp:weight_cylindrical"), ("map", "src/specieP.cpp:calc_density")])
p("P12", "Momentum, energy and temperature maps average the particles a node sees",
  "A node of the momentum map is the weighted mean of gamma m v of the particles it sees, with the Lorentz factor for particles "
  "above the relativistic threshold. The energy map is the kinetic energy in electronvolts of the mean absolute momentum (for "
  "one particle: its own kinetic energy) and the temperature map the energy of the momentum spread (zero for one particle). "
  "Nodes that see no particle hold zero and earlier contents of the maps do not matter.",
  ["inputs", "histories"], "every mass, weight, place and velocity of the particles and every old map content",
  NOT + "A map that is wrong by a factor or reads a stale map is still plausible.",
  ["src/specieP.cpp", "src/phys/rel.cpp"], [("maps", "src/specieP.cpp:calc_momentum, calc_energy, calc_temperature")])
p("P13", "The default current deposit conserves charge at every node",
  "With the default (Villasenor-Buneman) scheme, for a particle that moves within a cell or into a neighbour cell, the current "
  "flowing out of every node during the step is exactly the charge that node loses when charge is shared by ring overlap in r and linearly "
  "in z; the total longitudinal current is the charge times the displacement. The azimuthal current is the charge times v_phi spread like the "
  "density from the middle of the move. Deposits of particles and species add up, none erases another's, halo included.",
  ["inputs", "histories"], "every start and end in the nine cells, every charge, weight, cell size and step, any current deposited before",
  NOT + "Charge conservation must hold for every move; corner and border cases have measure zero for samples.",
  ["src/current/currentVB.cpp", "include/current/currentVB.hpp", "include/current.hpp"],
  [("r and z currents", "src/current/currentVB.cpp:rz_current_distribution, simple_current_distribution, strict_motion_distribution"),
   ("azimuthal current", "src/current/currentVB.cpp:azimuthal_current_distribution")])
p("P14", "The ZigZag deposit splits every move over its own cells",
  "With the ZigZag scheme, a move is split at the turning point (the border crossed, else the middle); each part deposits its charge flow on "
  "the nodes of its own cell with linear weights that sum to one, over the volume of the ring the middle of the move lies in. The azimuthal "
  "current does the same with the charge times v_phi at the final part; deposits add up.",
  ["inputs", "histories"], "every start and end in the nine cells, every charge, weight, cell size and step, any current deposited before",
  NOT, ["src/current/currentZigZag.cpp", "include/current/currentZigZag.hpp"], [("deposit", "src/current/currentZigZag.cpp:current_distribution")])
p("P15", "A plasma is loaded inside its domain, with its profile and temperature",
  "Every filling (random, van der Corput, cell centred, lattice) places its particles inside the cells the domain may fill, in the r-z plane, "
  "as many in every cell where the filling is regular, "
  "with weights proportional to the ring they fill that sum to the number of real particles of the density profile; random "
  "places follow that profile along z. Speeds are sampled for the species' temperature and own mass, "
  "directions from each particle's own random number, and a species below the relativistic threshold stays slower than light.",
  ["inputs"], "every random stream, density, cell size, temperature and domain place",
  NOT + "Loading is random; a test sees a few samples.",
  ["src/specieP.cpp", "src/math/rand.cpp"],
  [("placement", "src/specieP.cpp:fullyfill_spatial_distribution, set_spatial_distribution_*, set_weight"),
   ("velocities", "src/specieP.cpp:velocity_distribution, set_velocity_distribution_*")])
p("P16", "Beam bunches are injected at their time, place, speed and amount",
  "The domains at the left wall share a beam's macroparticles by the part of the radius they cover. While the simulation time is inside a "
  "bunch, each of them injects its share of the step, whole particles, not losing fractions between steps, inside the beam "
  "radius and one step's flight from the wall, with the beam velocity, a weight that grows with the radius and the right cell numbers. "
  "Each bunch ends in every domain. Beam particles are mirrored at the axis and leave through the other walls.",
  ["inputs", "histories"], "every beam description, time, random stream, cell size and time step",
  NOT + "Injection windows and shares depend on the whole parameter space.",
  ["src/beamP.cpp", "include/beamP.hpp"],
  [("shares", "src/beamP.cpp:BeamP::BeamP"), ("injection", "src/beamP.cpp:inject"), ("walls", "src/beamP.cpp:reflect")])
