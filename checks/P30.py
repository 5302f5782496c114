import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import distcheck, mck


def body(c):
    distcheck.build_nc(c)
    c.run("ncd", timeout=840)
    c.rule = "every process grid of at most 8 processes x local shapes x 2D/3D x hydro/MHD x both file formats x options x numbering of the processes; the whole file is compared, position by position, with what the owning process holds; collective calls, overlapping and missing writes checked"
    c.assumptions = ["parallel-netCDF implements its interface (the library is not installed: shim/pnetcdf models the calls used, on the message-passing model)"]


mck.main("P30", body)
