SPECIFICATION Spec
CONSTANTS Procs = {"p1", "p2", "p3"}
          Keys = {"a"}
          Loads = 2
INVARIANTS NeverRefused NotHeldUp
PROPERTY AllReturn
