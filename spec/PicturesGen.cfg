CONSTANTS Handles = {1, 2, 3}
          Files = {"a.svg", "b.svg", "c.tex", "d.tex", "e.png"}
          Depth = 24
          Small = FALSE
SPECIFICATION GenSpec
INVARIANTS Shown OnPage
CHECK_DEADLOCK FALSE
