from vp.valueprop import ValueProp

prop = ValueProp('C06', ['structural.stability_rock_armour.'])
