CONSTANTS
  MaxScans = 2
  MaxImages = 2
  MaxWrites = 2
SPECIFICATION Spec
INVARIANTS RoundTrip Independent NoLeftovers ReadsBack Contents ImagesBack
CHECK_DEADLOCK FALSE
