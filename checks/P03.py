import fvcheck
fvcheck.run("P03", ["divb"], ['initial field divergence-free'], 'every Riemann solver, slope limiter, implementation version, grid shape, boundary set; every divergence-free pattern, single-edge vector-potential disturbances (a basis)')
