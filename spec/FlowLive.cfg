SPECIFICATION LiveSpec
CONSTANTS MaxTime = 2
          MaxNonces = 6
          MaxSeen = 9
          Deviations = 1
          Take <- LiveTake
INVARIANT TypeOK OnlyTheCustomer
PROPERTY Obtained
CHECK_DEADLOCK FALSE
