SPECIFICATION Spec
INVARIANTS ReadsWhatIsWritten TestedOrTold NamedOrTold
CHECK_DEADLOCK FALSE
