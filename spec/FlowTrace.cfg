SPECIFICATION TraceSpec
CONSTANTS MaxTime = 9
          MaxNonces = 9
          MaxSeen = 9
          Deviations = 1
INVARIANT TraceSafe
CHECK_DEADLOCK FALSE
