"""P19: strings and holes are built section by section, all or nothing."""
from sim.stringcheck import StringCheck

CHECK = StringCheck()
