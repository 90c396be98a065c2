SPECIFICATION Spec
CONSTANTS MaxQ = 2
VIEW Abs
INVARIANTS QueueBound Quiet
PROPERTY Order
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
