CONSTANTS Projects = {"w1/app", "w2/app", "w1/app/sub", "."}
Depth = 60
INIT Init
NEXT GenNext
INVARIANTS KeptIsFirst OwnMethods Repairable Written
CHECK_DEADLOCK FALSE
