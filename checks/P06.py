import fvcheck
fvcheck.run("P06", ["impls"], [], 'every pair of implementation versions x every option, shape, boundary set and flow')
