SPECIFICATION CaseSpec
CONSTANTS MaxTime = 2
          MaxNonces = 3
          MaxSeen = 2
          Deviations = 1
INVARIANT TypeOK OnlyTheCustomer
PROPERTY Safety
ACTION_CONSTRAINT Emit
VIEW View
CHECK_DEADLOCK FALSE
