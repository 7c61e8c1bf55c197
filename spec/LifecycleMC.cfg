SPECIFICATION Spec
INVARIANT TypeOK OwnResults OwnAnswers
VIEW View
CONSTANT IdsConst <- Distinct
CHECK_DEADLOCK FALSE
