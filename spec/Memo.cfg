SPECIFICATION MemoSpec
CONSTANTS Threads = {1, 2, 3}
          Calls = {1, 2, 3}
          Results = {"a", "b"}
          MaxCalls = 7
INVARIANT OneResult
CHECK_DEADLOCK FALSE
