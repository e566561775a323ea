SPECIFICATION Spec
CONSTANT RulesOf <- CrashRules
VIEW View
CHECK_DEADLOCK FALSE
