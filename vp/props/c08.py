from vp.valueprop import ValueProp

prop = ValueProp('C08', ['structural.stability_rock_rear.'])
