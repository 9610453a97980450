"""All groups of obligations: name -> function of freshly loaded modules."""
from . import (angles, basic, compose, lemmas, linear, locate, pieces,  # noqa
               process, queue, segment, sweep, wrap)

GROUPS = {}
for _m in (locate, basic, queue, wrap, compose, process, lemmas, segment,
           linear, pieces, sweep, angles):
    GROUPS.update(_m.GROUPS)
