SPECIFICATION Spec
CONSTANT Dec <- DecImpl
VIEW StateView
INVARIANTS TypeOK LastWrite Coherent
PROPERTIES TokensStable RenameExact Frame CloneComplete MergeRight
CHECK_DEADLOCK FALSE
