SPECIFICATION Spec
VIEW View
CONSTRAINT KeepVac
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
