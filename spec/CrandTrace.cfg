SPECIFICATION Spec
CONSTANT RulesOf <- CrandRules
VIEW View
CHECK_DEADLOCK FALSE
