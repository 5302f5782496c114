import fvcheck
fvcheck.run("P28", ["dim23"], ["MHD restricted to planar flows", "SDM with M_TVB=0: the mean change compared with the threshold depends on the number of variables"],
            "every option x axis x boundary set; flow patterns", src="fv_more.cpp", sdm=["ext"])
