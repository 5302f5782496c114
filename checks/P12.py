import fvcheck
fvcheck.run("P12", ["dt"], ["states above the floors"], "every scheme option; the fastest cell (or point) placed at every position, fast by density, pressure, each velocity and field component", src="fv_more.cpp", sdm=["dt"])
