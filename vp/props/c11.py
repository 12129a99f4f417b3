from vp.valueprop import ValueProp

prop = ValueProp('C11', ['structural.forces_crestwall.'])
