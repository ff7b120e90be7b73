SPECIFICATION LongSpec
CONSTANTS MaxTime = 12
          MaxNonces = 14
          MaxSeen = 6
          Deviations = 2
INVARIANT TypeOK OnlyTheCustomer Emit
PROPERTY Safety
CHECK_DEADLOCK FALSE
