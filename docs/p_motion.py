p("P08", "Free motion is a straight line and conserves angular momentum",
  "A particle that sees no force and no wall moves in a straight line during a step: its new radius, longitude, speed, radial "
  "velocity and angular momentum about the axis are those of straight-line motion, as long as it does not pass the axis within "
  "the step, and its previous position is remembered. "
  "It stays in the r-z plane, keeps its weight, and is filed under exactly the grid cell that contains it.",
  ["inputs"], "every position, velocity and time step",
  NOT + "Rotation errors of first order in the step are invisible in a few sampled trajectories at rest.",
  ["src/specieP.cpp"], [("motion", "src/specieP.cpp:mover_cylindrical, back_position_to_rz, back_velocity_to_rz, bind_cell_numbers")])
p("P09", "Walls confine particles by specular reflection",
  "A particle that overshoots a wall its domain owns (axis, outer, left or right, half a cell inside the border) is put back at "
  "the mirrored place with exactly the normal velocity component reversed; speed, weight and everything else is kept. "
  "A particle that does not overshoot, or leaves through a border that is not a wall, is not touched.",
  ["inputs", "configurations"], "every old and new position, velocity, cell size, wall combination and domain offset",
  NOT + "Corner and exact-boundary cases are not sampled.",
  ["src/specieP.cpp"], [("reflection", "src/specieP.cpp:reflect")])
