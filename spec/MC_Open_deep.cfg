SPECIFICATION Spec
CONSTANTS
  MaxEls = 4
  Names = {"a", "prototype", "codecs"}
  MTypes = {"Structure", "Vector", "CompressedVector", "Integer"}
  Defects = {"none", "open", "val"}
INVARIANT Agrees
CHECK_DEADLOCK FALSE
