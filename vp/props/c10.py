from vp.valueprop import ValueProp

prop = ValueProp('C10', ['structural.forces_caisson.'])
