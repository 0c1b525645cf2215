CONSTANTS
  DimsSet <- SimDims
  NRegs = 3
  MaxSteps = 30
  MaxAmp = 60
  Kinds <- AllKinds
  Exhaustive = FALSE
  Entries <- SimEntries
  CplxSet = {TRUE, FALSE}
SPECIFICATION Spec
