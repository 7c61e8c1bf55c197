SPECIFICATION Spec
INVARIANT OwnAnswers
VIEW View
CONSTANT IdsConst <- Shared
CHECK_DEADLOCK FALSE
