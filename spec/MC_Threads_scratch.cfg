SPECIFICATION Spec
CONSTANTS Thread = {1, 2}
          Designs = {"scratch"}
          Policies = {"safe"}
          Length = 2
          Starts <- OneStart
CHECK_DEADLOCK FALSE
INVARIANT Independent
