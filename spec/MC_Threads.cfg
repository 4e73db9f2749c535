SPECIFICATION Spec
CONSTANTS Thread = {1, 2}
          Designs = {"pure", "perthread", "locked"}
          Policies = {"safe_io"}
          Length = 2
          Starts <- OneStart
CHECK_DEADLOCK FALSE
INVARIANTS Independent NoRace
PROPERTIES Unmodified Ends
