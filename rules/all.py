from . import cross, spec, basic, teams, serde, finite
