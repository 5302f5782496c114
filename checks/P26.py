import fvcheck
fvcheck.run("P26", ["gravity"], ['flows above the floors'], 'every gravity vector of an alphabet, every option and shape, against the half-step kick and the energy work written independently', src="fv_more.cpp")
