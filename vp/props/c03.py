from vp.valueprop import ValueProp

prop = ValueProp('C03', ['hydraulic.wave_overtopping.taw2002.', 'hydraulic.wave_overtopping.eurotop2018.', 'hydraulic.wave_overtopping.eurotop2007.'])
