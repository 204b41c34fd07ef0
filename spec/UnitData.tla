------------------------------ MODULE UnitData ------------------------------
EXTENDS Integers
\* Units: quantity q measured, value in base units is s x + o, and exponents (in twelfths) of m, kg, s, K, mol, A.
Units == <<
  [n |-> "dimensionless", q |-> "number", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "percent", q |-> "number", s |-> "0.01", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "degrees", q |-> "angle", s |-> "0.017453292519943295", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "radian", q |-> "angle", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "arcminute", q |-> "angle", s |-> "0.0002908882086657216", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "revolution", q |-> "angle", s |-> "6.283185307179586", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 0>>],
  [n |-> "m", q |-> "length", s |-> "1.0", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "ft", q |-> "length", s |-> "0.3048", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "in", q |-> "length", s |-> "0.0254", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "mm", q |-> "length", s |-> "0.001", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "km", q |-> "length", s |-> "1000.0", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "m^2", q |-> "area", s |-> "1.0", o |-> "0.0", d |-> <<24, 0, 0, 0, 0, 0>>],
  [n |-> "ft^2", q |-> "area", s |-> "0.09290304", o |-> "0.0", d |-> <<24, 0, 0, 0, 0, 0>>],
  [n |-> "inch^2", q |-> "area", s |-> "0.00064516", o |-> "0.0", d |-> <<24, 0, 0, 0, 0, 0>>],
  [n |-> "cm^2", q |-> "area", s |-> "0.0001", o |-> "0.0", d |-> <<24, 0, 0, 0, 0, 0>>],
  [n |-> "m^3", q |-> "volume", s |-> "1.0", o |-> "0.0", d |-> <<36, 0, 0, 0, 0, 0>>],
  [n |-> "ft^3", q |-> "volume", s |-> "0.028316846592000004", o |-> "0.0", d |-> <<36, 0, 0, 0, 0, 0>>],
  [n |-> "liter", q |-> "volume", s |-> "0.001", o |-> "0.0", d |-> <<36, 0, 0, 0, 0, 0>>],
  [n |-> "gallon", q |-> "volume", s |-> "0.003785411784", o |-> "0.0", d |-> <<36, 0, 0, 0, 0, 0>>],
  [n |-> "kg", q |-> "mass", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, 0, 0, 0, 0>>],
  [n |-> "lb", q |-> "mass", s |-> "0.45359237", o |-> "0.0", d |-> <<0, 12, 0, 0, 0, 0>>],
  [n |-> "g", q |-> "mass", s |-> "0.001", o |-> "0.0", d |-> <<0, 12, 0, 0, 0, 0>>],
  [n |-> "s", q |-> "time", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "minute", q |-> "time", s |-> "60.0", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "hour", q |-> "time", s |-> "3600.0", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "ms", q |-> "time", s |-> "0.001", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "K", q |-> "temperature", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 0, 12, 0, 0>>],
  [n |-> "degC", q |-> "temperature", s |-> "1.0", o |-> "273.15", d |-> <<0, 0, 0, 12, 0, 0>>],
  [n |-> "degR", q |-> "temperature", s |-> "0.5555555555555556", o |-> "0.0", d |-> <<0, 0, 0, 12, 0, 0>>],
  [n |-> "degF", q |-> "temperature", s |-> "0.5555555555555556", o |-> "255.3722222222222", d |-> <<0, 0, 0, 12, 0, 0>>],
  [n |-> "kg/m^3", q |-> "density", s |-> "1.0", o |-> "0.0", d |-> <<-36, 12, 0, 0, 0, 0>>],
  [n |-> "lb/ft^3", q |-> "density", s |-> "16.018463373960138", o |-> "0.0", d |-> <<-36, 12, 0, 0, 0, 0>>],
  [n |-> "g/cm^3", q |-> "density", s |-> "1000.0", o |-> "0.0", d |-> <<-36, 12, 0, 0, 0, 0>>],
  [n |-> "g/liter", q |-> "density", s |-> "1.0", o |-> "0.0", d |-> <<-36, 12, 0, 0, 0, 0>>],
  [n |-> "Pa*s", q |-> "viscosity", s |-> "1.0", o |-> "0.0", d |-> <<-12, 12, -12, 0, 0, 0>>],
  [n |-> "cP", q |-> "viscosity", s |-> "0.001", o |-> "0.0", d |-> <<-12, 12, -12, 0, 0, 0>>],
  [n |-> "lb/ft/hour", q |-> "viscosity", s |-> "0.0004133788732137649", o |-> "0.0", d |-> <<-12, 12, -12, 0, 0, 0>>],
  [n |-> "poise", q |-> "viscosity", s |-> "0.1", o |-> "0.0", d |-> <<-12, 12, -12, 0, 0, 0>>],
  [n |-> "Pa", q |-> "pressure", s |-> "1.0", o |-> "0.0", d |-> <<-12, 12, -24, 0, 0, 0>>],
  [n |-> "psi", q |-> "pressure", s |-> "6894.757293168361", o |-> "0.0", d |-> <<-12, 12, -24, 0, 0, 0>>],
  [n |-> "bar", q |-> "pressure", s |-> "100000.0", o |-> "0.0", d |-> <<-12, 12, -24, 0, 0, 0>>],
  [n |-> "atm", q |-> "pressure", s |-> "101325.0", o |-> "0.0", d |-> <<-12, 12, -24, 0, 0, 0>>],
  [n |-> "kPa", q |-> "pressure", s |-> "1000.0", o |-> "0.0", d |-> <<-12, 12, -24, 0, 0, 0>>],
  [n |-> "kg/s", q |-> "massflow", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, -12, 0, 0, 0>>],
  [n |-> "lb/hour", q |-> "massflow", s |-> "0.00012599788055555556", o |-> "0.0", d |-> <<0, 12, -12, 0, 0, 0>>],
  [n |-> "kg/hour", q |-> "massflow", s |-> "0.0002777777777777778", o |-> "0.0", d |-> <<0, 12, -12, 0, 0, 0>>],
  [n |-> "g/minute", q |-> "massflow", s |-> "1.6666666666666667e-05", o |-> "0.0", d |-> <<0, 12, -12, 0, 0, 0>>],
  [n |-> "m/s", q |-> "velocity", s |-> "1.0", o |-> "0.0", d |-> <<12, 0, -12, 0, 0, 0>>],
  [n |-> "ft/s", q |-> "velocity", s |-> "0.3048", o |-> "0.0", d |-> <<12, 0, -12, 0, 0, 0>>],
  [n |-> "km/hour", q |-> "velocity", s |-> "0.2777777777777778", o |-> "0.0", d |-> <<12, 0, -12, 0, 0, 0>>],
  [n |-> "ft/minute", q |-> "velocity", s |-> "0.00508", o |-> "0.0", d |-> <<12, 0, -12, 0, 0, 0>>],
  [n |-> "N/m", q |-> "tension", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, -24, 0, 0, 0>>],
  [n |-> "dyn/cm", q |-> "tension", s |-> "0.001", o |-> "0.0", d |-> <<0, 12, -24, 0, 0, 0>>],
  [n |-> "mN/m", q |-> "tension", s |-> "0.001", o |-> "0.0", d |-> <<0, 12, -24, 0, 0, 0>>],
  [n |-> "m^3/s", q |-> "flow", s |-> "1.0", o |-> "0.0", d |-> <<36, 0, -12, 0, 0, 0>>],
  [n |-> "m^3/hr", q |-> "flow", s |-> "0.0002777777777777778", o |-> "0.0", d |-> <<36, 0, -12, 0, 0, 0>>],
  [n |-> "gallons/minute", q |-> "flow", s |-> "6.30901964e-05", o |-> "0.0", d |-> <<36, 0, -12, 0, 0, 0>>],
  [n |-> "ft^3/s", q |-> "flow", s |-> "0.028316846592000004", o |-> "0.0", d |-> <<36, 0, -12, 0, 0, 0>>],
  [n |-> "liter/minute", q |-> "flow", s |-> "1.6666666666666667e-05", o |-> "0.0", d |-> <<36, 0, -12, 0, 0, 0>>],
  [n |-> "m^2/s", q |-> "diffusivity", s |-> "1.0", o |-> "0.0", d |-> <<24, 0, -12, 0, 0, 0>>],
  [n |-> "cSt", q |-> "diffusivity", s |-> "1e-06", o |-> "0.0", d |-> <<24, 0, -12, 0, 0, 0>>],
  [n |-> "ft^2/hour", q |-> "diffusivity", s |-> "2.58064e-05", o |-> "0.0", d |-> <<24, 0, -12, 0, 0, 0>>],
  [n |-> "W/m/K", q |-> "conductivity", s |-> "1.0", o |-> "0.0", d |-> <<12, 12, -36, -12, 0, 0>>],
  [n |-> "mW/cm/K", q |-> "conductivity", s |-> "0.1", o |-> "0.0", d |-> <<12, 12, -36, -12, 0, 0>>],
  [n |-> "J/kg/K", q |-> "heatcapacity", s |-> "1.0", o |-> "0.0", d |-> <<24, 0, -24, -12, 0, 0>>],
  [n |-> "kJ/kg/K", q |-> "heatcapacity", s |-> "1000.0", o |-> "0.0", d |-> <<24, 0, -24, -12, 0, 0>>],
  [n |-> "J/g/degR", q |-> "heatcapacity", s |-> "1800.0", o |-> "0.0", d |-> <<24, 0, -24, -12, 0, 0>>],
  [n |-> "W", q |-> "power", s |-> "1.0", o |-> "0.0", d |-> <<24, 12, -36, 0, 0, 0>>],
  [n |-> "kW", q |-> "power", s |-> "1000.0", o |-> "0.0", d |-> <<24, 12, -36, 0, 0, 0>>],
  [n |-> "hp", q |-> "power", s |-> "745.6998715822702", o |-> "0.0", d |-> <<24, 12, -36, 0, 0, 0>>],
  [n |-> "g/mol", q |-> "molarmass", s |-> "0.001", o |-> "0.0", d |-> <<0, 12, 0, 0, -12, 0>>],
  [n |-> "kg/mol", q |-> "molarmass", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, 0, 0, -12, 0>>],
  [n |-> "lb/mol", q |-> "molarmass", s |-> "0.45359237", o |-> "0.0", d |-> <<0, 12, 0, 0, -12, 0>>],
  [n |-> "W/m^2/K", q |-> "transfer", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, -36, -12, 0, 0>>],
  [n |-> "kW/m^2/degR", q |-> "transfer", s |-> "1800.0", o |-> "0.0", d |-> <<0, 12, -36, -12, 0, 0>>],
  [n |-> "1/m", q |-> "perlength", s |-> "1.0", o |-> "0.0", d |-> <<-12, 0, 0, 0, 0, 0>>],
  [n |-> "m^2/m^3", q |-> "perlength", s |-> "1.0", o |-> "0.0", d |-> <<-12, 0, 0, 0, 0, 0>>],
  [n |-> "1/ft", q |-> "perlength", s |-> "3.280839895013123", o |-> "0.0", d |-> <<-12, 0, 0, 0, 0, 0>>],
  [n |-> "1/inch", q |-> "perlength", s |-> "39.37007874015748", o |-> "0.0", d |-> <<-12, 0, 0, 0, 0, 0>>],
  [n |-> "cm^2/cm^3", q |-> "perlength", s |-> "100.0", o |-> "0.0", d |-> <<-12, 0, 0, 0, 0, 0>>],
  [n |-> "m^2/m", q |-> "perimeter", s |-> "1.0", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "ft^2/ft", q |-> "perimeter", s |-> "0.3048", o |-> "0.0", d |-> <<12, 0, 0, 0, 0, 0>>],
  [n |-> "m/s^2", q |-> "acceleration", s |-> "1.0", o |-> "0.0", d |-> <<12, 0, -24, 0, 0, 0>>],
  [n |-> "ft/s^2", q |-> "acceleration", s |-> "0.3048", o |-> "0.0", d |-> <<12, 0, -24, 0, 0, 0>>],
  [n |-> "cm/s^2", q |-> "acceleration", s |-> "0.01", o |-> "0.0", d |-> <<12, 0, -24, 0, 0, 0>>],
  [n |-> "Hz", q |-> "frequency", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "1/minute", q |-> "frequency", s |-> "0.016666666666666666", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "kHz", q |-> "frequency", s |-> "1000.0", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "revolutions/s", q |-> "speed", s |-> "6.283185307179586", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "revolutions/second", q |-> "speed", s |-> "6.283185307179586", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "rpm", q |-> "speed", s |-> "0.10471975511965977", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "radian/s", q |-> "speed", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, -12, 0, 0, 0>>],
  [n |-> "1/K", q |-> "expansion", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 0, -12, 0, 0>>],
  [n |-> "1/degR", q |-> "expansion", s |-> "1.8", o |-> "0.0", d |-> <<0, 0, 0, -12, 0, 0>>],
  [n |-> "1/Pa", q |-> "compress", s |-> "1.0", o |-> "0.0", d |-> <<12, -12, 24, 0, 0, 0>>],
  [n |-> "1/psi", q |-> "compress", s |-> "0.00014503773773020924", o |-> "0.0", d |-> <<12, -12, 24, 0, 0, 0>>],
  [n |-> "1/bar", q |-> "compress", s |-> "1e-05", o |-> "0.0", d |-> <<12, -12, 24, 0, 0, 0>>],
  [n |-> "m^3/(kg*Pa)", q |-> "leak", s |-> "1.0", o |-> "0.0", d |-> <<48, -24, 24, 0, 0, 0>>],
  [n |-> "ft^3/(lb*psi)", q |-> "leak", s |-> "9.054410173074705e-06", o |-> "0.0", d |-> <<48, -24, 24, 0, 0, 0>>],
  [n |-> "liter/(kg*kPa)", q |-> "leak", s |-> "1e-06", o |-> "0.0", d |-> <<48, -24, 24, 0, 0, 0>>],
  [n |-> "J/kg", q |-> "energy", s |-> "1.0", o |-> "0.0", d |-> <<24, 0, -24, 0, 0, 0>>],
  [n |-> "kJ/kg", q |-> "energy", s |-> "1000.0", o |-> "0.0", d |-> <<24, 0, -24, 0, 0, 0>>],
  [n |-> "m^2/s^2", q |-> "energy", s |-> "1.0", o |-> "0.0", d |-> <<24, 0, -24, 0, 0, 0>>],
  [n |-> "J/mol", q |-> "molarenergy", s |-> "1.0", o |-> "0.0", d |-> <<24, 12, -24, 0, -12, 0>>],
  [n |-> "kJ/mol", q |-> "molarenergy", s |-> "1000.0", o |-> "0.0", d |-> <<24, 12, -24, 0, -12, 0>>],
  [n |-> "m^0.5/s", q |-> "chezy", s |-> "1.0", o |-> "0.0", d |-> <<6, 0, -12, 0, 0, 0>>],
  [n |-> "ft^0.5/s", q |-> "chezy", s |-> "0.5520869496736904", o |-> "0.0", d |-> <<6, 0, -12, 0, 0, 0>>],
  [n |-> "s/m^(1/3)", q |-> "manning", s |-> "1.0", o |-> "0.0", d |-> <<-4, 0, 12, 0, 0, 0>>],
  [n |-> "s/ft^(1/3)", q |-> "manning", s |-> "1.4859185774962607", o |-> "0.0", d |-> <<-4, 0, 12, 0, 0, 0>>],
  [n |-> "kg/s/m^2", q |-> "massflux", s |-> "1.0", o |-> "0.0", d |-> <<-24, 12, -12, 0, 0, 0>>],
  [n |-> "kg/m^2/s", q |-> "massflux", s |-> "1.0", o |-> "0.0", d |-> <<-24, 12, -12, 0, 0, 0>>],
  [n |-> "lb/hour/ft^2", q |-> "massflux", s |-> "0.0013562298989952919", o |-> "0.0", d |-> <<-24, 12, -12, 0, 0, 0>>],
  [n |-> "Pa/m", q |-> "gradient", s |-> "1.0", o |-> "0.0", d |-> <<-24, 12, -24, 0, 0, 0>>],
  [n |-> "psi/ft", q |-> "gradient", s |-> "22620.59479385945", o |-> "0.0", d |-> <<-24, 12, -24, 0, 0, 0>>],
  [n |-> "kPa/m", q |-> "gradient", s |-> "1000.0", o |-> "0.0", d |-> <<-24, 12, -24, 0, 0, 0>>],
  [n |-> "W/m^2", q |-> "heatflux", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, -36, 0, 0, 0>>],
  [n |-> "kW/m^2", q |-> "heatflux", s |-> "1000.0", o |-> "0.0", d |-> <<0, 12, -36, 0, 0, 0>>],
  [n |-> "hp/ft^2", q |-> "heatflux", s |-> "8026.6466154635", o |-> "0.0", d |-> <<0, 12, -36, 0, 0, 0>>],
  [n |-> "N", q |-> "force", s |-> "1.0", o |-> "0.0", d |-> <<12, 12, -24, 0, 0, 0>>],
  [n |-> "lbf", q |-> "force", s |-> "4.4482216152605", o |-> "0.0", d |-> <<12, 12, -24, 0, 0, 0>>],
  [n |-> "kN", q |-> "force", s |-> "1000.0", o |-> "0.0", d |-> <<12, 12, -24, 0, 0, 0>>],
  [n |-> "V", q |-> "voltage", s |-> "1.0", o |-> "0.0", d |-> <<24, 12, -36, 0, 0, -12>>],
  [n |-> "kV", q |-> "voltage", s |-> "1000.0", o |-> "0.0", d |-> <<24, 12, -36, 0, 0, -12>>],
  [n |-> "A", q |-> "current", s |-> "1.0", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 12>>],
  [n |-> "mA", q |-> "current", s |-> "0.001", o |-> "0.0", d |-> <<0, 0, 0, 0, 0, 12>>],
  [n |-> "lb^0.5/(ft^0.5*s)", q |-> "erosion", s |-> "1.2199032517251331", o |-> "0.0", d |-> <<-6, 6, -12, 0, 0, 0>>],
  [n |-> "kg^0.5/(m^0.5*s)", q |-> "erosion", s |-> "1.0", o |-> "0.0", d |-> <<-6, 6, -12, 0, 0, 0>>],
  [n |-> "s^0.5/m^0.25", q |-> "specdiam", s |-> "1.0", o |-> "0.0", d |-> <<-3, 0, 6, 0, 0, 0>>],
  [n |-> "rpm*m^0.75/s^0.5", q |-> "specspeed", s |-> "0.10471975511965977", o |-> "0.0", d |-> <<9, 0, -18, 0, 0, 0>>],
  [n |-> "W/m^2/Hz", q |-> "solarflux", s |-> "1.0", o |-> "0.0", d |-> <<0, 12, -24, 0, 0, 0>>],
  [n |-> "day", q |-> "day", s |-> "86400.0", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "hr", q |-> "day", s |-> "3600.0", o |-> "0.0", d |-> <<0, 0, 12, 0, 0, 0>>],
  [n |-> "1/m^3", q |-> "particles", s |-> "1.0", o |-> "0.0", d |-> <<-36, 0, 0, 0, 0, 0>>]
>>
=============================================================================
