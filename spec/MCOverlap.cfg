SPECIFICATION Spec
INVARIANTS AnswersOK SettingsOK
CHECK_DEADLOCK FALSE
