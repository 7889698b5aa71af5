SPECIFICATION Spec
CONSTANTS
  MaxEls = 3
  Names = {"a", "prototype", "codecs"}
  MTypes = {"Structure", "Vector", "CompressedVector", "Integer", "Other"}
  Defects = {"none", "text", "off", "open", "val"}
INVARIANT Agrees
CHECK_DEADLOCK FALSE
