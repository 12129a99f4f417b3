"""C07: concrete armour: formulas against the reference model, and the tabulated unit properties against the published values."""
from vp import target
from vp.prop import V
from vp.valueprop import ValueProp

A = "structural.stability_concrete_armour."
TABLES = "unit properties"
# Rock Manual, CubiPod manual, Concrete Layer Innovations design table, Xbloc guidelines
PUBLISHED = {"accropode2_hudson1959": {"KD/trunk_breaking_min": 9, "KD/trunk_breaking_max": 16, "KD/trunk_nonbreaking": 16, "kt": 1.52, "nlayers": 1},
     "accropode_hudson1959": {"KD/trunk_non_breaking": 15,
                              "KD/trunk_breaking": 12,
                              "KD/head_non_breaking": 11.5,
                              "KD/head_breaking": 9.5,
                              "kt": 1.29,
                              "nlayers": 1},
     "core_loc_hudson1959": {"KD/trunk": 16.0, "KD/head": 13.0, "kt": 1.516, "nlayers": 1},
     "cubes_double_layer_hudson1959": {"KD/double_layer_trunk_non_breaking": 7.5,
                                       "KD/double_layer_trunk_breaking": 6.5,
                                       "KD/double_layer_head_non_breaking": 5.0,
                                       "KD/double_layer_head_breaking": None,
                                       "nv": 0.47,
                                       "kt": 1.1,
                                       "nlayers": 2,
                                       "Delta_x_fact_Dn": 1.7,
                                       "Delta_y_fact_Dn": 0.85},
     "cubes_double_layer_vandermeer1988": {"nv": 0.47, "kt": 1.1, "nlayers": 2, "Delta_x_fact_Dn": 1.7, "Delta_y_fact_Dn": 0.85},
     "cubes_single_layer_vangent2002": {"kt": 1.0, "nlayers": 1},
     "cubipod_hudson1959": {"KD/trunk_double_layer": 28,
                            "KD/trunk_single_layer": 12,
                            "KD/head_double_layer": 7,
                            "KD/head_single_layer": 5,
                            "kt": 1.0,
                            "nlayers": [1, 2]},
     "tetrapod_hudson1959": {"KD/trunk_non_breaking": 8.0,
                             "KD/trunk_breaking": 7.0,
                             "KD/head_non_breaking": 5.5,
                             "KD/head_breaking": 4.5,
                             "nv": 0.5,
                             "kt": 1.02,
                             "nlayers": 2},
     "xbloc": {"KD/trunk_breaking": 16, "KD/head_breaking": 13, "kt": 1.4, "nlayers": 1},
     "xblocplus": {"KD/trunk_breaking": 12, "kt": 1.33, "nlayers": 1}}


class Concrete(ValueProp):
    def units(self):
        return dict(super().units(), **{TABLES: 0.2})

    def modules_of(self, unit):
        return [A + m for m in PUBLISHED] if unit == TABLES else super().modules_of(unit)

    def gen(self, r, unit):
        if unit != TABLES:
            return super().gen(r, unit)
        m = r.choice(sorted(PUBLISHED))
        return {"table": m, "key": r.choice(sorted(PUBLISHED[m]))}

    def check(self, case):
        if "table" not in case:
            return super().check(case)
        want = PUBLISHED[case["table"]][case["key"]]
        try:
            x = target.module(A + case["table"] + ".unit_properties").unit_properties
            for k in case["key"].split("/"):
                x = x[k]
        except (AttributeError, KeyError, TypeError) as e:
            return V("fail", "unit_properties of %s: no %s (%r)" % (case["table"], case["key"], e))
        got = x
        if isinstance(want, list):
            got = sorted(got)
        if got is None or want is None:
            good = got is want
        elif isinstance(want, list):
            good = got == want
        else:
            good = abs(got - want) <= 1e-9 * abs(want)
        return V("ok", key="table") if good else V("fail", "%s of %s is %r, published: %r" % (case["key"], case["table"], x, want))

    def shrinks(self, case):
        return iter(()) if "table" in case else super().shrinks(case)


prop = Concrete("C07", [A])
