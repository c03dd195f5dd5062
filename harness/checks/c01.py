"""C01: scaling conversions."""
from .. import gen, judging, real

DB_GROUPS = {
    "m": "m km meter feet inch mile nautical_mile fathom angstrom light_year cm \u00b5m micron parsec furlong",
    "s": "s minute hour day week year fortnight ms microsecond sidereal_day common_year",
    "kg": "kg gram pound troy_ounce tonne slug mg grain carat",
    "A": "A mA abampere", "K": "K mK degR kelvin", "mol": "mol mmol kmol", "cd": "cd candela",
    "J": "J erg cal Btu eV therm MeV", "Pa": "Pa hPa bar atm mmHg psi torr millibar",
    "W": "W kW horsepower hp", "N": "N dyne lbf kgf poundal", "V": "V kV volt statvolt", "Hz": "Hz kHz rpm",
    "L": "L gallon pint cup liter mL acre_foot bushel", "a": "hectare acre are barn",
    "": "radian degree percent % arcminute rad sr pi 1 2 0.5 1e3", "ohm": "ohm kohm", "F": "F pF", "T": "T gauss",
    "Bq": "Bq curie", "Gy": "Gy rad_dose rem sievert".replace(" rad_dose", ""), "lx": "lux footcandle",
}

TRICKY = [  # nested powers, quotients of quotients, dimensionless residue
    ("(m/(s/kg))^-2", "s2/(m2.kg2)"), ("((km^2)^2)^-1", "m^-4"), ("rad.m", "degree.inch"),
    ("m/(2 s)/(3 kg)", "m/s/kg"), ("kg/(g/mg)", "kg"), ("1/(1/(1/m))", "m"), ("m0", "1"), ("km^0", "rad"),
    ("rpm", "Hz"), ("rad/s", "Hz"), ("percent^2 m", "m"), ("(2 m)^-3", "m^-3"),
    ("m/m", "1"), ("1", "percent"), ("km2", "m2"), ("dm3", "L"), ("mm^-1", "m^-1"), ("slug", "kg"),
    ("2", "1"), ("m s/(s m)", "percent"), ("m.m.m/m.m", "km3"), ("N.m/s", "W"),
    ("m", "1/m"), ("km/h", "s/m"), ("h/km", "m/s"), ("degree/s", "1/h"),
]


def run(check):
    rng = gen.rng_for(check.seed, "C01")
    t = gen.Texts(rng, gen.SIMPLE_DIMS)
    n = check.scale(1500, 12000)
    cases = [(0, a, b) for a, b in TRICKY] + [(0, b, a) for a, b in TRICKY]
    cases += [(0, *t.pair()) for _ in range(n)]
    t = gen.Texts(rng, DB_GROUPS)
    cases += [(1, *t.pair(4)) for _ in range(n // 2)]
    deep = gen.Texts(rng, gen.SIMPLE_DIMS)
    for _ in range(n // 5):
        # deeply nested groups
        v = deep.vector(2)
        a, b = deep.render(v, 2), deep.render(v, 2)
        for _ in range(rng.randint(1, 4)):
            k = rng.choice([-1, 1, -1, 2])
            other = rng.choice(["m", "s", "kg", "rad", "2", "3e-1", "km"])
            if rng.random() < 0.5:
                a, b = f"({other}/({a}))^{k}", f"({b})^{-k} {other}^{k}" if other[0].isalpha() else f"({b})^{-k} ({other})^{k}"
            else:
                a, b = f"({a})^{k}", f"1/({b})^{-k}"
        cases.append((0, a, b))
    judging.pairs(check, [gen.SIMPLE, real.DATABASE], cases, {"lookup", "existence"})
