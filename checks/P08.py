import fvcheck
fvcheck.run("P08", ["bc"], ["edge cells of the wedge and jet problems excluded (not read without viscosity)"],
            "every combination of boundary types on every face x every grid shape x every ghost cell (faces, edges, corners), ghosts poisoned before the fill; spectral difference: every order, and the inflow/outflow/wall sides of wedge and jet at several times", src="fv_more.cpp", sdm=["bc", "ghost"])
