SPECIFICATION Spec
CONSTANTS H = {h1, h2, h3}
          I = {i1, i2}
          P = {p, q}
          T = {1, 2}
INVARIANTS PartialIsOwned HandlesValid NoOrphans
PROPERTY Final
CHECK_DEADLOCK FALSE
