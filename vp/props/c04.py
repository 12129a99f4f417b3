from vp.valueprop import ValueProp

prop = ValueProp('C04', ['hydraulic.wave_overtopping.vangent2021_caisson.', 'hydraulic.wave_overtopping.vangent2025.', 'hydraulic.wave_overtopping.deridder2024.', 'hydraulic.wave_overtopping.deridder2026.', 'hydraulic.wave_overtopping.vangent2002_velocity.'])
