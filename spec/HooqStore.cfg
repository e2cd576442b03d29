CONSTANTS Projects = {"w1/app", "w2/app"}
Depth = 0
SPECIFICATION Spec
VIEW View
INVARIANTS KeptIsFirst OwnMethods Repairable
CHECK_DEADLOCK FALSE
