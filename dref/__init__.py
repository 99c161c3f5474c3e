"""Reference instrument model.

A frozen copy of the coordinate transforms (taken from the pinned commit), used
only as the *truth* of the simulated instrument: it decides where a simulated
star or fibre lands.  It shares no code with /repo at run time, so a change of
the optics in /repo shows up as a disagreement with the simulated hardware.
"""
