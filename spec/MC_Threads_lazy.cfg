SPECIFICATION Spec
CONSTANTS Thread = {1, 2}
          Designs = {"lazy"}
          Policies = {"safe"}
          Length = 2
          Starts <- OneStart
CHECK_DEADLOCK FALSE
INVARIANT Independent
