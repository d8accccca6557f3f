------------------------------- MODULE Units -------------------------------
(* The unit names of the DSL and the number each stands for. *)
EXTENDS Integers, TLC
UnitsOf(u) ==
    CASE u \in {""} -> 0
      [] u \in {"nanosec", "nanosecond", "nanoseconds", "nanosecs", "ns"} -> 1
      [] u \in {"microsec", "microsecond", "microseconds", "microsecs", "us"} -> 2
      [] u \in {"millisec", "millisecond", "milliseconds", "millisecs", "ms"} -> 3
      [] u \in {"s", "sec", "second", "seconds", "secs"} -> 4
      [] u \in {"min", "mins", "minute", "minutes"} -> 5
      [] u \in {"h", "hour", "hours"} -> 6
      [] u \in {"d", "day", "days"} -> 7
      [] u \in {"w", "week", "weeks"} -> 8
      [] u \in {"nanometer", "nanometers", "nanometre", "nanometres", "nm"} -> 9
      [] u \in {"micrometer", "micrometers", "micrometre", "micrometres", "um"} -> 10
      [] u \in {"millimeter", "millimeters", "millimetre", "millimetres", "mm"} -> 11
      [] u \in {"centimeter", "centimeters", "centimetre", "centimetres", "cm"} -> 12
      [] u \in {"m", "meter", "meters", "metre", "metres"} -> 13
      [] u \in {"kilometer", "kilometers", "kilometre", "kilometres", "km"} -> 14
      [] u \in {"nanometer/second", "nanometers/second", "nanometre/second", "nanometres/second", "nm/s", "nmps"} -> 15
      [] u \in {"micrometer/second", "micrometers/second", "micrometre/second", "micrometres/second", "um/s", "umps"} -> 16
      [] u \in {"millimeter/second", "millimeters/second", "millimetre/second", "millimetres/second", "mm/s", "mmps"} -> 17
      [] u \in {"centimeter/second", "centimeters/second", "centimetre/second", "centimetres/second", "cm/s", "cmps"} -> 18
      [] u \in {"m/s", "meter/second", "meters/second", "metre/second", "metres/second", "mps"} -> 19
      [] u \in {"kilometer/second", "kilometers/second", "kilometre/second", "kilometres/second", "km/s", "kmps", "kps"} -> 20
      [] u \in {"kilometer/hour", "kilometers/hour", "kilometre/hour", "kilometres/hour", "km/h", "kmph", "kph"} -> 21
      [] u \in {"hertz", "hz"} -> 22
      [] u \in {"khz", "kilohertz"} -> 23
      [] u \in {"megahertz", "mhz"} -> 24
      [] u \in {"ghz", "gigahertz"} -> 25
      [] u \in {"deg", "degree", "degrees"} -> 26
      [] u \in {"rad", "radian", "radians"} -> 27
      [] u \in {"na", "nanoamp", "nanoampere", "nanoamperes", "nanoamps"} -> 28
      [] u \in {"microamp", "microampere", "microamperes", "microamps", "ua"} -> 29
      [] u \in {"ma", "milliamp", "milliampere", "milliamperes", "milliamps"} -> 30
      [] u \in {"a", "amp", "ampere", "amperes", "amps"} -> 31
      [] u \in {"ka", "kiloamp", "kiloampere", "kiloamperes", "kiloamps"} -> 32
      [] u \in {"nanovolt", "nanovolts", "nv"} -> 33
      [] u \in {"microvolt", "microvolts", "uv"} -> 34
      [] u \in {"millivolt", "millivolts", "mv"} -> 35
      [] u \in {"v", "volt", "volts"} -> 36
      [] u \in {"kilovolt", "kilovolts", "kv"} -> 37
      [] u \in {"b", "byte", "bytes"} -> 38
      [] u \in {"kb", "kilobyte", "kilobytes"} -> 39
      [] u \in {"mb", "megabyte", "megabytes"} -> 40
      [] u \in {"gb", "gigabyte", "gigabytes"} -> 41
      [] u \in {"tb", "terabyte", "terabytes"} -> 42
      [] OTHER -> -1
===========================================================================
