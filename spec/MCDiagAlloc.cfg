SPECIFICATION Spec
CONSTANTS Slots = {0, 1}
          Logging = FALSE
VIEW View
PROPERTIES Said
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
