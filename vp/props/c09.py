from vp.valueprop import ValueProp

prop = ValueProp('C09', ['structural.stability_toe_berm.'])
