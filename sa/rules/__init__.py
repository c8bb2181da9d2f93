"""Static analysis of hubernikus/nonlinear_obstacle_avoidance (source only, nothing is run)."""
