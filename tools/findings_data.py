fixed("C06", "segment-intersect-degenerate", "aae673e", "intersecting a single-point segment with a segment whose supporting line does not contain it reported an overlap")
fixed("C01", "rug-perp", "eaa05de", "rug::Integer::cmp_perp_vector_slope rotated the vector clockwise instead of counter-clockwise")
fixed("C11", "cursor-iter-next-back", "813b56c", "CursorIter::next_back moved the back cursor forwards, so reverse iteration yielded wrong vertices")
fixed("C11", "cursor-iter-len", "88dac91", "an exhausted CursorIter still reported one remaining element")
fixed("C24", "melkman-order", "cc2d99f", "melkman walked the vertices in storage order instead of boundary order")
fixed("C08", "convex-locate-diagonal", "9f0af70", "PolygonConvex::locate reported OnBoundary for points on interior diagonals through the first vertex")
fixed("C24", "gift-wrapping-duplicate", "f225036", "gift_wrapping never terminated when the start point occurred twice")
fixed("C26", "all-colinear-duplicate", "2160446", "Point::all_colinear accepted any points when the first two were equal")
fixed("C25", "visibility-common-ray", "b5542a9", "get_visibility_polygon panicked on repeated points when several vertices lie on one ray from the observer")
fixed("C11", "cursor-range-empty", "824977c", "a half-open cursor range ending where it starts walked the whole ring, so Cursor::is_ear denied every vertex of a triangle")
