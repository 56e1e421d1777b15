p("P17", "Dividing the area into domains does not change the physics",
  "With any division into equal domains the fields of a step, the field a particle feels anywhere, and the current of "
  "particles that move within or between domains are exactly those of the undivided area, at every node of "
  "every domain; after a step the halo of every domain holds its neighbours' nodes, corners included.",
  ["inputs", "histories"], "every field state, particle place and move, cell size, time step and even division of the area",
  NOT + "A lost halo corner shows up only for particles that pass it.",
  ["src/SMB.cpp", "src/domain.cpp", "include/algo/grid.hpp", "include/algo/grid3d.hpp"],
  [("overlays", "src/SMB.cpp:current_overlay, field_e_overlay, field_h_overlay"), ("steps", "src/SMB.cpp:solve_maxvell, solve_current")])
p("P18", "Domains tile the area and every particle is in the domain of its cell",
  "The domains' cell ranges tile the area, each with the walls at its own borders, the same cell size and clock, its share of the "
  "macroparticles, its piece of every density profile, and every beam. After a step each particle inside the area is in exactly one domain, the one "
  "its cell belongs to, in its own species and otherwise unchanged, with its old place remembered; particles outside the area are removed.",
  ["inputs", "histories"], "every species and beam, every particle cell in and around the area, every even division",
  NOT + "Lost or doubled particles are visible only in long runs.",
  ["src/SMB.cpp", "src/domain.cpp"],
  [("partition", "src/SMB.cpp:SMB::SMB"), ("hand over", "src/SMB.cpp:particles_runaway_collector"), ("step", "src/SMB.cpp:advance_particles")])
p("P19", "Every dump holds the requested part of the requested map",
  "A probe's data set has the requested size and gets one slice at every schedule-th step, at the slice of that step, whatever "
  "rounding the clock has gathered; no other slice is touched. Each slice holds exactly the values of the named map at the "
  "requested places of the whole area, also where domains meet, for any probes together; the dumped density does not depend on "
  "the division into domains.",
  ["inputs", "configurations", "histories"], "every field state and particle set, probe shape and place, schedule and step",
  NOT + "Writers need HDF5 and a running simulation; slips show at particular borders, steps or combinations of probes.",
  ["src/outController.cpp", "src/outWriter.cpp", "src/outEngine/outEngineHDF5.cpp"],
  [("mapping of probes", "src/outController.cpp:OutController"), ("dump preparation", "src/outController.cpp:init_datasets"),
   ("values", "src/outWriter.cpp:operator()"), ("storage", "src/outEngine/outEngineHDF5.cpp:write_rec, write_vec, write_dot")])
p("P20", "What the configuration says is what is simulated",
  "The size, cells, domains, absorber, clock, species, beams and probes of a run are exactly those of the configuration file, in order, under their names and with numbers of their own; "
  "the total of macroparticles is shared between species equally and to beams by the cells they cover times the configured ratio, each share rounded down. "
  "A configuration that misses or mistypes an entry, repeats a name, has no electrons, a probe outside the area, or a division that does "
  "not fit is refused; steps and sizes the method cannot resolve are reported and others are not.",
  ["configurations", "inputs"], "every configuration",
  NOT + "A wrong entry silently simulates something else.",
  ["src/cfg.cpp", "include/geometry.hpp", "src/phys/plasma.cpp"],
  [("reading", "src/cfg.cpp:init_geometry, init_time, init_particles, init_beam, init_probes"), ("shares", "src/cfg.cpp:weight_macro_amount"),
   ("limits", "src/cfg.cpp:method_limitations_check")])
p("P21", "External fields act as configured, on top of the simulated ones",
  "The external electric and magnetic profiles are the ones named in the configuration, with its parameters; unknown names are refused. A longitudinal "
  "homogeneous profile has the configured amplitude at every node off the area's borders and no other component, the same in every step and for any "
  "division; every pusher moves particles in the sum of external and simulated field at the particle's place, and the simulated fields are untouched.",
  ["configurations", "inputs"], "every amplitude, division, particle place, velocity, charge and field", NOT + "External fields are a build option without any test.",
  ["src/maxwellSolver/externalFields.cpp", "src/domain.cpp", "src/SMB.cpp", "src/pusher/pusherBoris.cpp", "src/pusher/pusherVay.cpp", "src/pusher/pusherHC.cpp"],
  [("profiles", "src/maxwellSolver/externalFields.cpp:set_el_field_homogenous_z, set_magn_field_homogenous_z, operator()"), ("configuration", "src/cfg.cpp:init_external_fields")])
p("P22", "Coulomb collisions conserve momentum and energy and reach every particle",
  "A pair collision of equally weighted particles conserves the pair's momentum and energy (classically for TA77S, relativistically for P12 and SK98), changes only "
  "the two velocities, keeps them below c, and is governed by the pair's true relative velocity and the scheme's deflection parameter. With different "
  "weights TA77S turns the relative velocity of both and restores each kind's momentum and energy in the cell, and P12 deflects the lighter always and the heavier with the "
  "ratio of weights. In every cell, also after empty ones, each electron and ion collides with its own kind (if it is not alone) and with the other, never across cells; other species "
  "take no part.",
  ["inputs", "configurations"], "every pair, random draw, weight, group size and scheme", NOT + "Collisions are a build option without any test; a lost sign "
  "still scatters plausibly.",
  ["src/collisions.cpp", "src/collisions/collisionsTA77S.cpp", "src/collisions/collisionsP12.cpp", "src/collisions/collisionsSK98.cpp", "src/domain.cpp"],
  [("pairs", "src/collisions/*.cpp:collide_single"), ("pairing", "src/collisions/*.cpp:collide"), ("correction", "src/collisions/collisionsTA77S.cpp:correct_velocities")])

p("P23", "Thermal energies follow the Maxwell and Maxwell-Juettner distributions",
  "For every uniform random number the thermal sampler returns the energy at which the cumulative distribution for the given temperature (in units of the rest "
  "energy) reaches it: the Maxwell distribution of energies below a tenth of the rest energy, Maxwell-Juettner's above, where an energy drawn is accepted with "
  "the probability v/c and drawn anew otherwise. Also in the tails, the coldest and the hottest particles get positive, finite energies of the right size, and no "
  "random number reads outside the tables.",
  ["inputs"], "every random number and temperature", NOT + "A test sees a few samples; a wrong tail or table cell only distorts the distribution.",
  ["src/math/maxwellJuettner.cpp"],
  [("Maxwell", "src/math/maxwellJuettner.cpp:maxwellJuettner"), ("Maxwell-Juettner", "src/math/maxwellJuettner.cpp:maxwellJuettner")])

p("P24", "The time loop is complete and pausing or stopping it never harms the output",
  "From the first to the last step not later than the end time the program performs every step once, in the order injection, fields, particles, currents, output, and "
  "advances the clock by one step; particles are loaded once before. SIGUSR1 at any moment pauses it after the current step is written, with the data file closed "
  "as long as the pause lasts; SIGUSR2 continues with the file reopened, every dump written exactly once with the values of its step, as without a pause. SIGTERM and the like at "
  "any moment close the file, once, and exit with the signal's number. The configuration file is that of -f, or PiCoPiC.json.",
  ["schedules", "histories", "inputs"], "every moment of signals, step length and end time", NOT + "The program itself is not compiled by the tests, and signals "
  "arrive whenever they like.",
  ["src/PiCoPiC.cpp", "src/outController.cpp", "include/outWriter.hpp"],
  [("time loop", "src/PiCoPiC.cpp:main"), ("signals", "src/PiCoPiC.cpp:signal_handler"), ("reopened file", "src/outController.cpp:reopen"), ("command line", "src/PiCoPiC.cpp:parse_argv_get_config")])
p("P25", "Relativistic kinematics, plasma formulas and vectors are what they say",
  "For every velocity below that of light the Lorentz factor, its inverse, kinetic energy and momentum satisfy the exact relativistic relations, energies below the "
  "relativistic limit are the classical ones, and a velocity above that of light or a vanishing mass is refused, never a NaN. Debye length, plasma frequency, "
  "Coulomb logarithm (never below 2) and collision frequency follow their formulas, vectors calculate and compare component by component, and the "
  "physical constants agree with each other.",
  ["inputs"], "every velocity, momentum, mass, density, temperature, charge and vector",
  "The tests compare some constants with literals; the formulas are never called.",
  ["src/phys/rel.cpp", "src/phys/plasma.cpp", "include/math/vector3d.hpp", "include/constant.hpp"],
  [("kinematics", "src/phys/rel.cpp"), ("plasma parameters", "src/phys/plasma.cpp"), ("vectors", "include/math/vector3d.hpp")])
p("P26", "A run distributed over MPI ranks is the run of the undivided area",
  "In a build with MPI every rank holds a slice of the area along z. After the exchange every node of a rank holds the current, and every node of a rank and of its "
  "neighbour around it the electric and magnetic fields, that one process holds there, near the corner of four domains, too. A particle that crosses into the slice of a neighbour arrives "
  "there once, in the domain of its cell, its species, its velocity and all its data kept; one that leaves the area is removed. Walls, absorber, cells and density profile of "
  "the ranks are those of the undivided area. The exchange ends though messages are not buffered, every message is received, data types are released.",
  ["inputs", "schedules"], "every field, current, density and particle, and every order in which blocking sends can wait",
  NOT + "Nothing is built with MPI in the tests; an exchange that misses a field or deadlocks with large messages shows only on a cluster.",
  ["src/SMB.cpp", "include/SMB.hpp"],
  [("exchange of particles", "src/SMB.cpp:particles_runaway_collector"), ("exchange of current", "src/SMB.cpp:current_overlay"),
   ("exchange of fields", "src/SMB.cpp:field_h_overlay"), ("message", "include/SMB.hpp:MPICommOverlay"), ("slices", "src/SMB.cpp:SMB")])
p("P27", "Threads neither collide nor change what is calculated",
  "In a build with OpenMP the domains are worked on by several threads. In every parallel loop, that is, plasma loading, injection, motion and hand-over of particles, collisions, weighting "
  "and exchange of currents, electric and magnetic fields and external fields, no memory that one thread writes is read or written by another one without synchronisation, "
  "whatever the domains hold. Fields, currents, and place and motion of every particle are those of a run with a single thread, in whatever order the threads run; only the order of particles in "
  "a list may differ. Every thread draws random numbers of its own.",
  ["inputs", "schedules"], "every content of the domains and every schedule of the threads between two barriers",
  NOT + "The tests call single classes from one thread; a race shows once in many runs, as a slightly wrong current.",
  ["src/SMB.cpp", "src/math/rand.cpp"],
  [("hand-over of particles", "src/SMB.cpp:particles_runaway_collector"), ("exchange of current", "src/SMB.cpp:current_overlay"),
   ("exchange of fields", "src/SMB.cpp:field_e_overlay"), ("parallel loops", "src/SMB.cpp:advance_particles"), ("random numbers", "src/math/rand.cpp")])
