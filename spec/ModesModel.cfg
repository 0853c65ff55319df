INIT Both0
NEXT Both
VIEW View2
INVARIANT Close2
CHECK_DEADLOCK FALSE
