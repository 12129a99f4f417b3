from vp.valueprop import ValueProp

prop = ValueProp('C02', ['hydraulic.wave_runup.'])
