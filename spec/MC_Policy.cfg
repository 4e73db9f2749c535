SPECIFICATION Spec
CONSTANTS Comp = 3  Word = 9
  Policies <- PolicyNames
INVARIANTS ArithRefines NegRefines ModLaw CmpRefines CmpConsistent FormPromised HeadroomOrder LcmRoom
CHECK_DEADLOCK FALSE
