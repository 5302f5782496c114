import fvcheck
fvcheck.run("P04", ["uniform"], ['states above the floors'], 'every uniform state of an alphabet of density, pressure, velocity and field; every option, shape and boundary set')
