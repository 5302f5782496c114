import fvcheck
fvcheck.run("P02", ["conserve-mhd"], ['flows stay above the density and pressure floors'], 'every Riemann solver, slope limiter, implementation version, grid shape, dimension; flow patterns with a divergence-free field and every single-cell disturbance')
