import fvcheck
fvcheck.run("P05", ["symmetry"], ['the MHD comparison tolerates round-off of the discontinuous limiter selections'], 'all symmetry generators (mirrors, axis swaps, cyclic shifts, field reversal) x every option and shape')
