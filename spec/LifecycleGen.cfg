SPECIFICATION GenSpec
INVARIANT TypeOK OwnResults OwnAnswers
CHECK_DEADLOCK FALSE
