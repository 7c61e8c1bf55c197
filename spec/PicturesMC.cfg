CONSTANTS Handles = {1, 2}
          Files = {"a.svg", "b.tex"}
          Depth = 3
          Small = TRUE
SPECIFICATION MCSpec
INVARIANTS Shown OnPage SameDrawing
CHECK_DEADLOCK FALSE
