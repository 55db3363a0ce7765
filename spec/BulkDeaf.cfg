SPECIFICATION Spec
CONSTANTS Items = 4
          Heeds = FALSE
INVARIANTS InOrder Complete ToldOnce Told
PROPERTIES NothingAfter NothingSentTwice Ends NotStuck
CHECK_DEADLOCK FALSE
