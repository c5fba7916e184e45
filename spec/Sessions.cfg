SPECIFICATION Spec
VIEW view
PROPERTIES Independent SelfContained AllAlone
CHECK_DEADLOCK FALSE
