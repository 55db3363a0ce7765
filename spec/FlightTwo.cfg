SPECIFICATION Spec
CONSTANTS Procs = {"p1", "p2"}
          Keys = {"a", "b"}
          Loads = 2
INVARIANTS NeverRefused NotHeldUp
PROPERTY AllReturn
