from vp.valueprop import ValueProp

prop = ValueProp('C05', ['hydraulic.wave_transmission.'])
