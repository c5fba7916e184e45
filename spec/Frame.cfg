SPECIFICATION Spec
PROPERTIES InputsKept ConstantsKept NothingAround
CONSTANTS
  Contents = {1, 2}
  SkConst = {"oid", "skseed", "root"}
CHECK_DEADLOCK FALSE
