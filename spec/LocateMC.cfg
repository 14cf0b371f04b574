SPECIFICATION Spec
CONSTANTS
  Most = 7
INVARIANTS GivesBack Tangent Composes Decided
