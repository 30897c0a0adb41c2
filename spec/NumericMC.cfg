SPECIFICATION Spec
INVARIANT IntLaws DyadicLaws RootLaw TableLaws LimitLaws
CHECK_DEADLOCK FALSE
