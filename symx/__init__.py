"""symx: symbolic execution of the real nbc sources with z3 deciding every obligation."""
