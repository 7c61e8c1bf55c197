------------------------------- MODULE PicturesMC -------------------------------
(* Programs of drawing and saving, by simulation, and model checking of the page geometry and of the       *)
(* independence of pictures from one another on small programs.                                            *)
EXTENDS Pictures, Json, IOUtils
CONSTANTS Depth, Small
VARIABLES pics, disk, shown, program
vars == << pics, disk, shown, program >>

Hex == {"00", "17", "8C", "F0"}
Cols == IF Small THEN {"red"} ELSE {"#000000", "red", "blue", "#44AAFF", "#123ABC", "orange", "#FFFFFF", "#DD2299"}
                                   \cup {"#" \o a \o b \o c : a, b \in Hex, c \in {"03", "D5"}}
Coord == IF Small THEN {0, 1} ELSE -4..4
Rnd(S) == {RandomElement(S)}
Pt(n) == [1..n -> Coord]
Words == {"x", "y_1", "a<b", "\\phi & \\psi", "x > y", "f(x)=2"}
Anchors == {"center", "north", "south", "east", "west", "north east", "north west", "south east", "south west"}
Dirs2 == {<<2, 0>>, <<0, 2>>, <<-2, 0>>, <<0, -1>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>}
Opts == {[scale |-> s, width |-> w, height |-> h, pad |-> p, axes |-> a, das |-> d, title |-> t] :
           s \in {0, 90, 200, 450}, w \in {0, 300, 500}, h \in {0, 210}, p \in {5, 10, 25}, a \in 0..2, d \in {1, 2},
           t \in {"", "A & B"}}
OkOpts == {o \in Opts : Cardinality({f \in {"scale", "width", "height"} : o[f] > 0}) <= 1}
NullOpts == [scale |-> 0, width |-> 0, height |-> 0, pad |-> 25, axes |-> 0, das |-> 1, title |-> ""]
FileSeqs == {q \in UNION {[1..n -> Files] : n \in 1..3} : \A i, j \in 1..Len(q) : q[i] = q[j] => i = j}

Do(s) == /\ pics' = AfterPics(pics, s)
         /\ disk' = AfterDisk(pics, disk, s, Len(program) + 1)
         /\ shown' = [f \in Files |-> IF disk'[f] # disk[f] THEN DrawnAll(pics[s.h]) ELSE shown[f]]
         /\ program' = Append(program, s)
Live == {h \in Handles : pics[h] # NoPic}

(* random steps *)
RItem == \* a random item; all points of an item have the same number of coordinates
  \E d \in Rnd({1, 2, 3}) : \E h \in Rnd(Live), c1 \in Rnd(Cols), c2 \in Rnd(Cols), c3 \in Rnd(Cols), w \in Rnd({1, 2, 4, 8}),
     kind \in Rnd({"line", "line", "bezier", "arrow", "fill", "math", "ncircle", "marker", "dofarrow"}),
     p1 \in Rnd(Pt(d)), p2 \in Rnd(Pt(d)), p3 \in Rnd(Pt(d)), p4 \in Rnd(Pt(d)), n \in Rnd({0, 3, 9, 10, 42, 99, 100, 312}),
     txt \in Rnd(Words), an \in Rnd(Anchors), fs \in Rnd({0, 12, 20, 22, 25, 28, 31, 35, 37, 40, 44, 50}),
     bold \in Rnd(BOOLEAN), sh \in Rnd(BOOLEAN), dir \in Rnd(Dirs2), form \in Rnd(0..3), zero \in Rnd(1..8) :
     LET base == [op |-> kind, form |-> form, col |-> c1, w |-> w]
         it == CASE kind = "line" -> base @@ [pts |-> <<p1, p2>>]
                 [] kind = "arrow" -> base @@ [pts |-> IF zero = 1 THEN <<p1, p1>> ELSE <<p1, p2>>]
                 [] kind = "bezier" -> base @@ [pts |-> <<p1, p2, p3, p4>>]
                 [] kind = "fill" -> [base EXCEPT !.w = 25 * (w % 5)] @@ [pts |-> IF sh THEN <<p1, p2, p3>> ELSE <<p1, p2, p3, p4>>]
                 [] kind = "math" -> base @@ [pts |-> <<p1>>, txt |-> txt, fs |-> IF fs = 0 THEN 35 ELSE fs, anchor |-> an]
                 [] kind = "ncircle" -> base @@ [pts |-> <<p1>>, num |-> n, tcol |-> c2, fcol |-> c3, r |-> 10 * w, fs |-> fs]
                 [] kind = "marker" -> base @@ [pts |-> <<p1>>, num |-> n, bold |-> bold]
                 [] OTHER -> base @@ [op |-> "dofarrow", pts |-> <<p1>>, dir |-> IF d = 3 /\ pics[h].opts.axes = 0 THEN <<0, 0, 2>> ELSE dir,
                                      num |-> n, bold |-> bold, shifted |-> sh]
     IN Do([a |-> "add", h |-> h, item |-> it])
RSave == \E h \in Rnd(Live), fs \in Rnd(FileSeqs), one \in Rnd(BOOLEAN) :
           Do([a |-> "save", h |-> h, files |-> IF one THEN SubSeq(fs, 1, 1) ELSE fs])
RText == \E h \in Rnd(Live), fmt \in Rnd({"svg", "tex"}) : Do([a |-> "text", h |-> h, fmt |-> fmt])
RNew == IF Live = Handles THEN RText ELSE \E h \in Rnd(Handles \ Live), o \in Rnd(OkOpts) : Do([a |-> "new", h |-> h, opts |-> o])
GenInit == /\ \E o \in Rnd(OkOpts) : pics = [h \in Handles |-> IF h = 1 THEN Blank(o) ELSE NoPic]
           /\ disk = [f \in Files |-> <<0, 0>>] /\ shown = [f \in Files |-> <<>>]
           /\ program = << [a |-> "new", h |-> 1, opts |-> pics[1].opts] >>
GenNext == /\ Len(program) < Depth
           /\ \E k \in Rnd(1..12) : CASE k = 1 -> RNew [] k \in 2..3 -> RSave [] k = 4 -> RText [] OTHER -> RItem
           /\ Len(program') = Depth => PrintT(ToJson(program'))
GenSpec == GenInit /\ [][GenNext]_vars

(* exhaustive on small programs *)
MCInit == /\ pics = [h \in Handles |-> Blank(NullOpts)] /\ disk = [f \in Files |-> <<0, 0>>]
          /\ shown = [f \in Files |-> <<>>] /\ program = <<>>
MCNext == /\ Len(program) < Depth
          /\ \/ \E h \in Handles, p \in Pt(2), q \in Pt(2), k \in {"arrow"} :
                   Do([a |-> "add", h |-> h, item |-> [op |-> k, form |-> 0, col |-> "red", w |-> 4, pts |-> <<p, q>>]])
             \/ \E h \in Handles, fs \in FileSeqs : Do([a |-> "save", h |-> h, files |-> fs])
MCSpec == MCInit /\ [][MCNext]_vars

(* what a file shows is what its picture showed when it was saved, in drawing order *)
Shown == \A f \in Files : disk[f] # <<0, 0>> =>
           LET h == disk[f][1]
               upto == SelectSeq(SubSeq(program, 1, disk[f][2]), LAMBDA s : s.a = "add" /\ s.h = h)
           IN shown[f] = Seq1([i \in 1..Len(upto) |-> Drawn(upto[i].item, pics[h].opts)])
(* everything but the handles of curves lies on the page, and the page is tight *)
OnPage == \A h \in Handles : LET p == pics[h] IN p # NoPic /\ CanDraw(DrawnAll(p), p.opts) =>
            LET ds == DrawnAll(p)
                b == Box(ds)
                sz == PageSize(p)
                all == UNION {{Svg(q, p.opts, b) : q \in Corners(ds[i])} : i \in 1..Len(ds)}
                pad == 100 * p.opts.pad
            IN /\ \A q \in all : q[1] \in pad..(sz[1] - pad) /\ q[2] \in pad..(sz[2] - pad)
               /\ \E q \in all : q[1] = pad
               /\ \E q \in all : q[2] = pad
(* every format shows the same drawing: in the same places up to scale and the direction of y *)
SameDrawing == \A h \in Handles : LET p == pics[h] IN p # NoPic /\ CanDraw(DrawnAll(p), p.opts) =>
                 LET ds == DrawnAll(p)
                     b == Box(ds)
                 IN \A i \in 1..Len(ds) : \A k \in 1..Len(ds[i].pts) :
                      LET s == Svg(ds[i].pts[k], p.opts, b)
                          t == Tikz(ds[i].pts[k], p.opts, b)
                      IN /\ s[1] - 100 * p.opts.pad = 2 * (t[1] - 10000 * p.opts.pad)
                         /\ (PageSize(p)[2] - s[2]) - 100 * p.opts.pad = 2 * (t[2] - 10000 * p.opts.pad)
=================================================================================
