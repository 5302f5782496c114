import fvcheck
fvcheck.run("P01", ["conserve-hydro"], ['flows stay above the density and pressure floors'], 'every Riemann solver, slope limiter, implementation version, grid shape, dimension; periodic and closed boxes; flow patterns plus every single-cell disturbance of a uniform flow')
