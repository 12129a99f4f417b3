from vp.valueprop import ValueProp

prop = ValueProp('C01', ['core_physics.'])
