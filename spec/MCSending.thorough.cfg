CONSTANT Values <- ThoroughValues
CONSTANT Statuses = {200, 201, 204, 404, 500}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Composed Documented Absent PlainIsUnchanged
