SPECIFICATION Spec
CONSTANTS Items = 4
          Heeds = TRUE
INVARIANTS InOrder Complete ToldOnce Told
PROPERTIES NothingAfter NothingSentTwice Ends NotStuck
CHECK_DEADLOCK FALSE
