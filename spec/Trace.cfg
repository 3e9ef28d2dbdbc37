SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Prop = "@PROP@"
