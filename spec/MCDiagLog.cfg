SPECIFICATION Spec
CONSTANTS Slots = {0}
          Logging = TRUE
VIEW View
PROPERTIES Said
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
