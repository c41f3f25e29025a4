"""Planted bugs: (id, property, edits [(file, old, new)], demo program, what it needs, what it breaks)."""
SEEDS = []
PRE = """use rgeometry::data::*;
use rgeometry::*;
use std::cmp::Ordering;
"""


def S(id, prop, edits, demo, needs, breaks, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=PRE + "fn main() {\n" + demo + "\n}\n" + kw.pop("extra", ""), needs=needs, breaks=breaks, **kw))


S("C02-isize-dist", "C02",
  ("src/lib.rs", "(true, false) => Ordering::Greater,\n          (false, true) => Ordering::Less,\n          _ => pq_dist_squared.cmp(&pr_dist_squared),",
   "(true, _) => Ordering::Greater,\n          (false, true) => Ordering::Less,\n          _ => pq_dist_squared.cmp(&pr_dist_squared),"),
  """  let o = Point::new([i32::MIN, i32::MIN]);
  let a = Point::new([i32::MAX, i32::MAX - 1]);
  let b = Point::new([i32::MAX, i32::MAX]);
  assert_eq!(o.cmp_distance_to(&a, &b), Ordering::Less);
  assert_eq!(o.cmp_distance_to(&b, &b), Ordering::Equal);""",
  "both squared distances overflow the wide unsigned type", "two overflowing distances always compare as greater")
S("C05-locate-corner", "C05",
  ("src/data/triangle.rs", "} else if ab == CoLinear || bc == CoLinear || ca == CoLinear {",
   "} else if ab == CoLinear || bc == CoLinear || (ca == CoLinear && pt > a) {"),
  """  let t = [Point::new([0, 0]), Point::new([4, 0]), Point::new([-4, 4])];
  let v = TriangleView::new([&t[0], &t[1], &t[2]]).unwrap();
  assert_eq!(v.locate(&Point::new([-2, 2])), PointLocation::OnBoundary);""",
  "a point on the third edge that precedes the first corner in the point order", "such a boundary point is reported inside")
S("C06-open-touch", "C06",
  ("src/data/line_segment.rs", "    } else if l2_to_a2 == CoLinear {\n      if self.max.is_inclusive()\n        && inner_between",
   "    } else if l2_to_a2 == CoLinear {\n      if (self.max.is_inclusive() || l1_to_b1 == l1_to_b2.reverse())\n        && inner_between"),
  """  // the open end (3,0) of the first segment lies on the second: no common point
  let a = LineSegment::new(EndPoint::Inclusive(Point::new([0, 0])), EndPoint::Exclusive(Point::new([3, 0])));
  let b = LineSegment::new(EndPoint::Inclusive(Point::new([3, -1])), EndPoint::Inclusive(Point::new([3, 1])));
  assert!(a.intersect(&b).is_none());
  assert!(b.intersect(&a).is_none());""",
  "an open upper end that lies exactly on the interior of the other segment", "the two segments are reported to cross")
S("C07-vector-side", "C07",
  ("src/data/line.rs", "        l1_to_b2 =\n          Point::orient_along_vector(origin, direction, b2).then(Orientation::CounterClockWise);",
   "        l1_to_b2 =\n          Point::orient_along_vector(origin, direction, b2).then(l1_to_b1);"),
  """  let o = Point::new([0, 0]);
  let v = Vector([1, 0]);
  let l = LineSoS::from(Line::new_directed(&o, &v));
  // lower end to the right of the line, upper end exactly on it (counts as left)
  let s = LineSegment::from((-1, -1)..(2, 0));
  assert!((&l).intersect(s.as_ref()).is_some());""",
  "a line given by a vector, the first end point on the right and the second exactly on the line", "the crossing is missed")
S("C07-parallel-halfline", "C07",
  ("src/data/line.rs", "        let l2_to_a1 = Point::orient(b2, b1, origin);\n        if l1_to_b1 == l2_to_a1 {",
   "        let l2_to_a1 = Point::orient(b2, b1, origin);\n        if l1_to_b1 == l2_to_a1 || l2_to_a1.is_colinear() {"),
  """  // the half-line starts exactly at the segment's upper end point
  let o = Point::new([2, 0]);
  let v = Vector([1, 0]);
  let r = HalfLineSoS::new_directed(&o, &v);
  let s = LineSegment::from((1, 3)..(2, 0));
  assert_eq!((&r).intersect(s.as_ref()), None);""",
  "a half-line that starts exactly at the segment's upper end point", "it is reported to cross")
S("C19-max-tie", "C19",
  ("src/data/point.rs", "        Ordering::Equal => continue,\n        other => return other,",
   "        Ordering::Equal => continue,\n        Ordering::Greater if N > 2 && i == 0 => return other.array[1].total_cmp(&self.array[1]).then(Ordering::Greater),\n        other => return other,"),
  """  let a = Point::new([2, 5, 0]);
  let b = Point::new([1, 3, 0]);
  assert_eq!(a.cmp(&b), Ordering::Greater);
  assert_eq!(b.cmp(&a), Ordering::Less);""",
  "points with more than two coordinates that differ in the first", "the order is no longer lexicographic nor antisymmetric")
S("C08-saturating-count", "C08",
  ("src/data/polygon.rs", "          intersections += 1;", "          intersections = std::cmp::min(intersections + 1, 9);"),
  """  // a comb with 10 teeth: a ray to the right crosses many edges
  let mut pts = vec![Point::new([0, 0]), Point::new([100, 0])];
  for i in (0..10).rev() { pts.push(Point::new([i * 10 + 5, 50])); pts.push(Point::new([i * 10, 10])); }
  let p = Polygon::new(pts).unwrap();
  assert_eq!(p.locate(&Point::new([-5, 30])), PointLocation::Outside);
  assert_eq!(p.locate(&Point::new([5, 49])), PointLocation::Inside);
  assert_eq!(p.locate(&Point::new([1, 30])), PointLocation::Outside);""",
  "a ray crossing more than nine edges", "crossings beyond the ninth are not counted")
S("C08-convex-diagonal", "C08",
  ("src/data/polygon/convex.rs", "pt) == Orientation::CounterClockWise {\n        lower = middle;", "pt) != Orientation::ClockWise {\n        lower = middle;"),
  """  let p = PolygonConvex::new_unchecked(Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])]).unwrap());
  assert_eq!(p.locate(&Point::new([2, 2])), PointLocation::Inside);
  assert_eq!(p.locate(&Point::new([4, 2])), PointLocation::OnBoundary);""",
  "a query on a diagonal from the first vertex", "a point on an interior diagonal is reported on the boundary")
S("C11-len-single", "C11",
  ("src/data/polygon/iter.rs", "if pos_head.position_id.0 <= pos_tail.position_id.0 {\n      pos_tail", "if pos_head.position_id.0 < pos_tail.position_id.0 {\n      pos_tail"),
  """  use std::ops::Bound::*;
  let p = Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])]).unwrap();
  let c = p.iter_boundary().next().unwrap();
  assert_eq!(c.to(Included(c)).len(), 1);""",
  "a range of a single vertex", "the remaining length of a one-vertex range is reported as the ring size plus one")
S("C11-excluded-start", "C11",
  ("src/data/polygon.rs", "      Bound::Included(end) => CursorIter {\n        cursor_head: self,\n        cursor_tail: end,\n        exhausted: false,",
   "      Bound::Included(end) => CursorIter {\n        cursor_head: self,\n        cursor_tail: end,\n        exhausted: end == self,"),
  """  use std::ops::Bound::*;
  let p = Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])]).unwrap();
  let c = p.iter_boundary().next().unwrap();
  assert_eq!(c.to(Included(c)).count(), 1);
  assert_eq!(c.to(Included(c.next())).count(), 2);""",
  "an inclusive range whose end equals its start", "the single vertex of such a range is not visited")
S("C18-centroid-large", "C18",
  ("src/data/polygon.rs", "    let three = T::from_constant(3);\n", "    let three = T::from_constant(if self.points.len() < 64 { 3 } else { 4 });\n"),
  """  let pts: Vec<Point<i64>> = (0..70).map(|i| Point::new([60 * i, 60 * i * i])).collect();
  let p = Polygon::new(pts).unwrap();
  let q = p.clone().map_points(|p| Point::new([p.x_coord() + 6000, *p.y_coord()]));
  let d = q.centroid().x_coord() - p.centroid().x_coord() - 6000;
  assert!(d.abs() <= 1, "{}", d);""",
  "a polygon with at least 64 vertices", "the centroid of large polygons is scaled by 3/4")
S("C18-centroid-round", "C18",
  ("src/data/polygon.rs", "Point::from(xs / (three * self.signed_area_2x()))", "Point::from(xs / (three * T::from_constant(2) * (self.signed_area_2x::<T>() / T::from_constant(2))))"),
  """  let p: Polygon<i64> = Polygon::new(vec![Point::new([3, 3]), Point::new([4, 3]), Point::new([3, 4]), ]).unwrap();
  let c = std::panic::catch_unwind(|| p.centroid());
  assert_eq!(c.unwrap(), Point::new([3, 3]));""",
  "integer coordinates and an odd doubled area", "the area is halved with rounding before it is used")
S("C18-orientation-tie", "C18",
  ("src/data/polygon.rs", "min_by(|a, b| a.point().cmp(b.point()))", "min_by(|a, b| a.point().x_coord().total_cmp(b.point().x_coord()))"),
  """  let p: Polygon<i32> = Polygon::new_unchecked(vec![Point::new([0, 2]), Point::new([0, 0]), Point::new([5, 3]), Point::new([0, 4])]);
  assert_eq!(p.orientation(), rgeometry::Orientation::CounterClockWise);""",
  "several vertices share the smallest x and the first of them is straight", "the orientation of such a ring is reported colinear")
SQ = "Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])]).unwrap()"
S("C10-cast-identity", "C10",
  ("src/data/polygon.rs", "    let pts = self.points.into_iter().map(|p| p.cast()).collect();\n    Polygon {\n      points: pts,\n      ring_index: self.ring_index,\n      position_index: self.position_index,",
   "    let len = self.points.len();\n    let pts = self.points.into_iter().map(|p| p.cast()).collect();\n    Polygon {\n      points: pts,\n      ring_index: self.ring_index,\n      position_index: (0..len).map(PositionId).collect(),"),
  """  // clockwise input: the constructor reverses the ring
  let p: Polygon<i32> = Polygon::new(vec![Point::new([0, 4]), Point::new([4, 4]), Point::new([4, 0]), Point::new([0, 0])]).unwrap();
  let q: Polygon<i64> = p.cast();
  for c in q.iter_boundary() { assert!(q.cursor(c.point_id()) == c); }""",
  "a polygon whose boundary order differs from its storage order", "casting resets the position table, so cursors obtained from vertex ids point elsewhere")
NV = "src/algorithms/intersection/naive.rs"
S("C09-pairs-window", "C09", (NV, "(0..a).map(", "(a.saturating_sub(64)..a).map("),
  """  // a long comb whose first and last parts cross
  let mut pts: Vec<Point<i64>> = (0..80).map(|i| Point::new([10 * i, if i % 2 == 0 { 0 } else { 1 }])).collect();
  pts.extend((0..80).rev().map(|i| Point::new([10 * i + 1, 100 + i % 2])));
  // spike from the left end of the top chain crossing an early edge of the bottom chain
  let n = pts.len();
  pts[n - 1] = Point::new([35, -50]);
  assert!(Polygon::new(pts).is_err());""",
  "more than 64 edges and an intersection between edges far apart in storage order", "self-intersecting polygons with many vertices are accepted")
S("C09-convex-colinear", "C09", ("src/data/polygon/convex.rs", "cursor.orientation() != Orientation::CounterClockWise", "cursor.orientation() == Orientation::ClockWise"),
  """  let p: Polygon<i32> = Polygon::new(vec![Point::new([0, 0]), Point::new([2, 0]), Point::new([4, 0]), Point::new([4, 4])]).unwrap();
  assert!(PolygonConvex::new_unchecked(p).validate().is_err());""",
  "a convex polygon with a straight vertex", "polygons with straight vertices pass convex validation")
S("C09-convex-first", "C09", ("src/data/polygon/convex.rs", "for cursor in self.0.iter_boundary() {", "for cursor in self.0.iter_boundary().skip(1) {"),
  """  let p: Polygon<i32> = Polygon::new(vec![Point::new([1, 1]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4]), Point::new([0, 3])]).unwrap();
  let q: Polygon<i32> = Polygon::new(vec![Point::new([1, 1]), Point::new([0, -4]), Point::new([4, 0]), Point::new([0, 4])]).unwrap();
  let _ = p;
  assert!(PolygonConvex::new_unchecked(Polygon::new(vec![Point::new([1, 0]), Point::new([0, -4]), Point::new([4, 0]), Point::new([0, 4])]).unwrap()).validate().is_err());
  let _ = q;""",
  "the only reflex vertex is the first vertex of the boundary", "convex validation never examines the first vertex")
S("C09-edge-zero", "C09", ("src/data/polygon.rs", "let edges: Vec<DirectedEdge<'_, T, 2>> = self.iter_boundary_edges().collect();", "let edges: Vec<DirectedEdge<'_, T, 2>> = self.iter_boundary_edges().skip(1).collect();"),
  """  let p: Result<Polygon<i32>, _> = Polygon::new(vec![Point::new([0, 0]), Point::new([10, 0]), Point::new([10, 10]), Point::new([5, -5]), Point::new([0, 10])]);
  assert!(p.is_err());""",
  "the first boundary edge takes part in every intersection", "self-intersections of the first edge are missed")
TF = "src/transformation.rs"
S("C17-owned-compose", "C17", (TF, "Transform::new(self.0 * other.0)", "Transform::new(other.0 * self.0)"),
  """  use rgeometry::data::{Transform, Vector};
  let t = Transform::translate(Vector([1, 2])) * Transform::scale(Vector([3, 5]));
  assert_eq!(&t * Point::new([10, 10]), Point::new([31, 52]));""",
  "two owned transformations that do not commute", "composing owned transformations applies them in the wrong order")
S("C17-scale-last", "C17", (TF, """    for i in 0..N {
      m[(i, i)] = vec[i].clone();
    }
    m[(N, N)] = T::one();""", """    for i in 0..N {
      m[(i, i)] = vec[i % 2].clone();
    }
    m[(N, N)] = T::one();"""),
  """  use rgeometry::data::{Transform, Vector};
  let t: Transform<i32, 3> = Transform::scale(Vector([1, 2, 3]));
  assert_eq!((&t * Vector([1, 1, 1])).0, [1, 2, 3]);""",
  "scaling in three or more dimensions", "the third axis is scaled by the first factor")
S("C17-view-div", "C17", ("src/data/vector/add.rs", "    for i in 0..N {\n      self.0[i] += other.0.index(i).clone()\n    }", "    for i in 0..N.min(2) {\n      self.0[i] += other.0.index(i).clone()\n    }"),
  """  use rgeometry::data::Vector;
  let s: Vector<i32, 3> = vec![Vector([1, 2, 3]), Vector([1, 1, 1])].into_iter().sum();
  assert_eq!(s.0, [2, 3, 4]);""",
  "vectors of three or more dimensions", "in-place addition and sums ignore the third component")
S("C17-polygon-prefix", "C17", (TF, "for pt in other.iter_mut() {", "for pt in other.iter_mut().take(256) {"),
  """  use rgeometry::data::{Transform, Vector};
  let pts: Vec<Point<i64>> = (0..300).map(|i| Point::new([i, i * i])).collect();
  let p = Polygon::new(pts).unwrap();
  let q = &Transform::translate(Vector([1, 1])) * p.clone();
  for (a, b) in p.iter_boundary().zip(q.iter_boundary()) { assert_eq!(b.point(), &Point::new([a.point().x_coord() + 1, a.point().y_coord() + 1])); }""",
  "a polygon of more than 256 points", "only the first points of a large polygon are transformed")
GW = "src/algorithms/convex_hull/gift_wrapping.rs"
GS = "src/algorithms/convex_hull/graham_scan.rs"
EC = "src/algorithms/triangulation/earclip.rs"
S("C12-graham-translate", "C12",
  (GS, "        pts.swap(read_idx, write_idx);\n        read_idx += 1;\n      } else {",
   "        pts.swap(read_idx, write_idx);\n        let shift = origin.x_coord().clone() - origin.x_coord().clone();\n        if pts.len() > 1000 && pts[write_idx] == pts[read_idx] {\n          let y = pts[write_idx].array[1].clone();\n          pts[write_idx].array[1] = y + T::from_constant(1) + shift;\n        }\n        read_idx += 1;\n      } else {"),
  """  use rgeometry::algorithms::convex_hull;
  let mut pts: Vec<Point<i32>> = vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])];
  pts.extend((0..1000).map(|_| Point::new([2, 2])));
  let h = convex_hull(pts.clone()).unwrap();
  for p in h.polygon().iter_boundary() { assert!(pts.contains(p.point())); }""",
  "more than a thousand points with duplicates on the first ray of the scan", "a hull vertex is moved off the input points")
S("C12-star-scale", "C12",
  ("src/algorithms/polygonization/star.rs", "  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));",
   "  if vertices.iter().any(|v| v == point) {\n    for v in vertices.iter_mut() {\n      *v = Point::new([v.x_coord().clone() + v.x_coord().clone(), v.y_coord().clone()]);\n    }\n  }\n  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));"),
  """  let pts: Vec<Point<i32>> = vec![Point::new([1, 1]), Point::new([4, 0]), Point::new([4, 4])];
  let p = rgeometry::algorithms::polygonization::new_star_polygon(pts.clone(), &pts[0]);
  if let Ok(p) = p { for c in p.iter_boundary() { assert!(pts.contains(c.point())); } }""",
  "the centre of the star is one of the vertices", "the polygon is made of stretched points")
S("C14-earclip-address", "C14",
  (EC, "  let rng = SmallRng::seed_from_u64(0xDEADBEEF);\n  triangulate_list(&poly.points", "  let rng = SmallRng::seed_from_u64(poly.points.as_ptr() as usize as u64);\n  triangulate_list(&poly.points"),
  """  let mut pts = vec![];
  for i in 0..40i64 { pts.push(Point::new([i, i * i])); }
  let p = Polygon::new(pts).unwrap();
  let a: Vec<_> = rgeometry::algorithms::triangulation::earclip::earclip(&p).collect();
  let mut keep = vec![];
  for _ in 0..5 { let q = p.clone(); let b: Vec<_> = rgeometry::algorithms::triangulation::earclip::earclip(&q).collect(); assert!(a == b); keep.push(q); }""",
  "comparing two triangulations of one polygon", "triangulating the same polygon twice gives different triangulations")
S("C14-static-seed", "C14",
  [("src/data/polygon/convex.rs", "    let n = n.max(3);\n    loop {", "    static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let extra = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) / 100000;\n    let n = n.max(3) + extra.min(1);\n    loop {")],
  """  use rand::SeedableRng;
  let mut first = None;
  for _ in 0..100_001 {
    let mut rng = rand::rngs::SmallRng::seed_from_u64(7);
    let p: PolygonConvex<i8> = PolygonConvex::random(3, &mut rng);
    let n = p.polygon().iter_boundary().len();
    match first { None => first = Some(n), Some(m) => assert_eq!(m, n) }
  }""",
  "more than a hundred thousand calls in one process", "the hundred-thousandth random polygon from the same seed differs")
S("C15-unchecked-get", "C15",
  ("src/data/polygon.rs", "    &self.points[idx.0]", "    unsafe { self.points.get_unchecked(idx.0) }"),
  """  let big = Polygon::new((0..40i64).map(|i| Point::new([i, i * i])).collect()).unwrap();
  let id = big.iter_boundary().map(|c| c.point_id()).last().unwrap();
  let small = Polygon::new(vec![Point::new([0i64, 0]), Point::new([4, 0]), Point::new([4, 4])]).unwrap();
  assert!(std::panic::catch_unwind(|| { small.point(id); }).is_err());""",
  "a vertex id from a larger polygon", "memory beyond the vertex table is read instead of a panic")
S("C16-deref-mut", "C16",
  ("src/data/polygon/convex.rs", "impl<T> From<PolygonConvex<T>> for Polygon<T> {", "impl<T> DerefMut for PolygonConvex<T> {\n  fn deref_mut(&mut self) -> &mut Self::Target {\n    &mut self.0\n  }\n}\n\nimpl<T> From<PolygonConvex<T>> for Polygon<T> {"),
  """  fn takes<T: std::ops::Deref>(_: &T) -> bool { false }
  trait Probe { fn probe(&self) -> bool { false } }
  impl<T> Probe for &T {}
  struct W<T>(T);
  impl<T: std::ops::DerefMut> W<T> { fn probe(&self) -> bool { true } }
  trait No { fn probe(&self) -> bool { false } }
  impl<T> No for W<T> {}
  let p: PolygonConvex<i32> = PolygonConvex::new_unchecked(Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4])]).unwrap());
  takes(&p);
  assert!(!W(p).probe());""",
  "mutating the points of a convex polygon through the new access", "a convex polygon can be made non-convex through safe calls")
MK = "src/algorithms/convex_hull/melkman.rs"
HULLDEMO = """  use rgeometry::algorithms::convex_hull;
"""
S("C24-gift-start-y", "C24",
  (GW, "TotalOrd::total_cmp(&(a.y_coord(), a.x_coord()), &(b.y_coord(), b.x_coord()))", "TotalOrd::total_cmp(a.y_coord(), b.y_coord())"),
  """  use rgeometry::algorithms::convex_hull::gift_wrapping;
  let h = gift_wrapping::convex_hull(vec![Point::new([5i64, 0]), Point::new([0, 0]), Point::new([9, 0]), Point::new([4, 7])]).unwrap();
  assert_eq!(h.iter_boundary().len(), 3);""",
  "the lowest points are aligned and the first of them in the input is neither end", "a point in the middle of the bottom edge becomes a vertex of the hull")
S("C24-gift-cap", "C24",
  (GW, "    for i in 0..n {\n", "    for i in 0..n.min(1 << 10) {\n"),
  """  use rgeometry::algorithms::convex_hull::gift_wrapping;
  let mut pts: Vec<Point<i64>> = (0..1200i64).map(|i| Point::new([i % 7, i % 11])).collect();
  pts.push(Point::new([100, 100]));
  let h = gift_wrapping::convex_hull(pts).unwrap();
  assert!(h.iter_boundary().any(|c| c.point() == &Point::new([100, 100])));""",
  "more than 1024 points, an extreme one late in the input", "extreme points late in the input are left out of the hull")
S("C24-gift-stop", "C24",
  (GW, "    p = q;\n", "    if hull.len() > 32 && pts[q].x_coord() == pts[leftmost].x_coord() {\n      break;\n    }\n    p = q;\n"),
  """  use rgeometry::algorithms::convex_hull::gift_wrapping;
  let mut pts: Vec<Point<i64>> = (-60..=60i64).map(|i| Point::new([i, i * i])).collect();
  pts.push(Point::new([0, 4000]));
  let h = gift_wrapping::convex_hull(pts.clone()).unwrap();
  assert_eq!(h.iter_boundary().len(), pts.len());""",
  "a hull of more than 32 vertices one of which is above the start point", "the walk stops early and part of the hull is missing")
S("C24-graham-truncate", "C24",
  (GS, "  pts.truncate(write_idx + 1);\n", "  pts.truncate((write_idx + 1).min(1 << 10));\n"),
  """  use rgeometry::algorithms::convex_hull::graham_scan;
  let pts: Vec<Point<i64>> = (-600..=600i64).map(|i| Point::new([i, i * i])).collect();
  let h = graham_scan::convex_hull(pts.clone()).unwrap();
  assert_eq!(h.iter_boundary().len(), pts.len());""",
  "a hull of more than 1024 vertices", "vertices of a large hull are dropped")
S("C24-melkman-tail", "C24",
  (MK, "        convex_hull.remove(last_idx - 1);\n        last_idx = convex_hull.len() - 1;\n", "        convex_hull.remove(last_idx - 1);\n        last_idx = convex_hull.len() - 1;\n        if last_idx > 40 {\n          break;\n        }\n"),
  """  use rgeometry::algorithms::convex_hull;
  let mut pts: Vec<Point<i64>> = (-30..=30i64).map(|i| Point::new([i, i * i])).collect();
  pts.push(Point::new([40, 1000]));
  if let Ok(p) = Polygon::new(pts.clone()) {
    let h = convex_hull::melkman::convex_hull(&p);
    let g = convex_hull::gift_wrapping::convex_hull(pts).unwrap();
    assert_eq!(h.iter_boundary().len(), g.iter_boundary().len());
  }""",
  "a vertex that hides several earlier vertices while the hull has more than forty", "vertices inside the hull stay in the result")
VN = "src/algorithms/visibility/naive.rs"
VISD = """  use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
  fn signed(p: &Polygon<i64>) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = p.iter_boundary().map(|c| (c.point().array[0], c.point().array[1])).collect();
    v.sort();
    v
  }
"""
S("C25-vis-cap", "C25",
  (VN, "    for edge in polygon.iter_boundary_edges() {\n      use IHalf", "    for edge in polygon.iter_boundary_edges().take(1 << 8) {\n      use IHalf"),
  VISD + """  // a long zigzag of more than 256 edges, then the walls of the room
  let mut pts: Vec<Point<i64>> = Vec::new();
  for i in 0..150i64 {
    pts.push(Point::new([20 * i, -10]));
    pts.push(Point::new([20 * i + 10, -11]));
  }
  pts.push(Point::new([3000, 1000]));
  pts.push(Point::new([-10, 1000]));
  let poly = Polygon::new(pts).unwrap();
  assert!(get_visibility_polygon(&Point::new([1500, 5]), &poly).is_some());""",
  "a polygon of more than 256 edges", "edges beyond the first 256 never block, so walls are missed")
S("C25-vis-nearest-tail", "C25",
  (VN, "        if self.origin.cmp_distance_to(&intersection, previous) == Ordering::Less {", "        if self.origin.cmp_distance_to(&intersection, previous) == Ordering::Less\n          && intersection.array[0] != previous.array[0]\n        {"),
  VISD + """  // looking straight up: both blocking points have the same first coordinate
  let poly = Polygon::new(vec![
    Point::new([0i64, 20]), Point::new([0, 0]), Point::new([20, 0]), Point::new([20, 20]), Point::new([6, 20]), Point::new([6, 9]), Point::new([14, 9]), Point::new([14, 8]), Point::new([5, 8]), Point::new([5, 20]),
  ]).unwrap();
  let v = get_visibility_polygon(&Point::new([6, 1]), &poly).unwrap();
  assert!(signed(&v).iter().all(|p| !(p.0 == 6 && p.1 > 8)), "{:?}", signed(&v));""",
  "a vertical ray that crosses a farther edge before a nearer one", "a hidden point is reported visible")
S("C25-vis-colinear-end", "C25",
  (VN, "    Orientation::CoLinear => edge.src.clone(),\n    // edge.dst should be colinear with the ray\n    _ => edge.dst.clone(),",
   "    Orientation::CoLinear => edge.src.clone(),\n    Orientation::ClockWise if line.origin > edge.dst => edge.src.clone(),\n    // edge.dst should be colinear with the ray\n    _ => edge.dst.clone(),"),
  VISD + """  let poly = Polygon::new(vec![Point::new([0i64, 0]), Point::new([8, 0]), Point::new([8, 8]), Point::new([4, 8]), Point::new([4, 4]), Point::new([0, 4])]).unwrap();
  for (x, y) in [(1i64, 1i64), (6, 2), (7, 7), (6, 6), (3, 1), (5, 5)] {
    let v = get_visibility_polygon(&Point::new([x, y]), &poly).unwrap();
    assert!(signed(&v).contains(&(4, 4)));
    for s in signed(&v) {
      assert!(poly.locate(&Point::new([s.0, s.1])) != PointLocation::Outside);
    }
  }""",
  "an edge that ends on a ray pointing left or down, seen from its clockwise side", "the wrong end of the edge is recorded as the visible point")
S("C25-vis-trunc", "C25",
  (VN, "  polygon_points.dedup();\n", "  polygon_points.dedup();\n  polygon_points.truncate(1 << 9);\n"),
  VISD + """  let mut pts: Vec<Point<i64>> = (-300..=300i64).map(|i| Point::new([i, i * i])).collect();
  pts.push(Point::new([0, 200000]));
  let n = pts.len();
  let poly = Polygon::new(pts).unwrap();
  let v = get_visibility_polygon(&Point::new([1, 100000]), &poly).unwrap();
  assert_eq!(signed(&v).len(), n);""",
  "a visible region of more than 512 vertices", "the rest of the visible region is cut off")
EC = "src/algorithms/triangulation/earclip.rs"
EARX = """
fn area2(p: &Polygon<i64>, t: &(PointId, PointId, PointId)) -> i128 {
  let c = |i: PointId| { let q = p.point(i); (q.array[0] as i128, q.array[1] as i128) };
  let (a, b, d) = (c(t.0), c(t.1), c(t.2));
  (b.0 - a.0) * (d.1 - a.1) - (b.1 - a.1) * (d.0 - a.0)
}
fn good(p: &Polygon<i64>, ts: &[(PointId, PointId, PointId)]) -> bool {
  let ids: Vec<PointId> = p.iter_boundary().map(|c| c.point_id()).collect();
  let n = ids.len();
  if ts.len() != n - 2 || ts.iter().any(|t| area2(p, t) <= 0) { return false; }
  let mut whole = 0i128;
  for i in 1..n - 1 { whole += area2(p, &(ids[0], ids[i], ids[i + 1])); }
  whole == ts.iter().map(|t| area2(p, t)).sum::<i128>()
}
fn spiky(rng: &mut rand::rngs::SmallRng, n: usize, w: i64) -> Option<Polygon<i64>> {
  use rand::Rng;
  let mut pts: Vec<(i64, i64)> = (0..n).map(|_| (rng.gen_range(-w..=w), rng.gen_range(-w..=w))).collect();
  pts.sort();
  pts.dedup();
  // up along one chain, back along the other: x-monotone polygon
  let (l, r) = (pts[0], pts[pts.len() - 1]);
  let side = |p: &(i64, i64)| (r.0 - l.0) as i128 * (p.1 - l.1) as i128 - (r.1 - l.1) as i128 * (p.0 - l.0) as i128;
  let mut low: Vec<_> = pts.iter().cloned().filter(|p| side(p) <= 0).collect();
  let mut up: Vec<_> = pts.iter().cloned().filter(|p| side(p) > 0).collect();
  up.reverse();
  low.extend(up);
  Polygon::new(low.into_iter().map(|p| Point::new([p.0, p.1])).collect()).ok()
}
"""
def eard(n, w, tries, fn="earclip_hashed"):
    return f"""  use rand::SeedableRng;
  use rgeometry::algorithms::triangulation::earclip::{fn};
  let mut rng = rand::rngs::SmallRng::seed_from_u64(5);
  std::panic::set_hook(Box::new(|_| ()));
  let mut seen = 0;
  for _ in 0..{tries} {{
    if let Some(p) = spiky(&mut rng, {n}, {w}) {{
      seen += 1;
      let ts = std::panic::catch_unwind(|| {fn}(&p).take({n} * 2).collect::<Vec<_>>());
      assert!(ts.is_ok() && good(&p, &ts.unwrap()));
    }}
  }}
  assert!(seen > 0);"""
S("C21-ear-double-queue", "C21",
  (EC, "    if !self.possible_ears_set.contains(possible_ear) {\n      self.possible_ears_set.insert(possible_ear);\n      self.possible_ears_vec.push(possible_ear);\n    }",
   "    if !self.possible_ears_set.contains(possible_ear) || self.possible_ears_vec.len() > 100 {\n      self.possible_ears_set.insert(possible_ear);\n      self.possible_ears_vec.push(possible_ear);\n    }"),
  eard(300, 10000, 20, "earclip"),
  "a queue of more than 100 candidates", "a vertex that was already cut off is cut off again", extra=EARX)
S("C21-hash-cap", "C21",
  (EC, "    // Look downwards\n    while cond(down_focus) {\n      if check(down_focus) {\n        return false;\n      }\n",
   "    // Look downwards\n    let mut budget = 1 << 6;\n    while cond(down_focus) {\n      if check(down_focus) {\n        return false;\n      }\n      budget -= 1;\n      if budget == 0 {\n        break;\n      }\n"),
  eard(1500, 100000, 40),
  "a blocking vertex more than 64 places below the ear in hash order", "an ear is cut off across the boundary", extra=EARX)
S("C21-len-three", "C21",
  (EC, "        vertices.delete(focus);\n        len -= 1;\n", "        vertices.delete(focus);\n        len -= if len == 1 << 9 { 2 } else { 1 };\n"),
  eard(700, 100000, 3, "earclip"),
  "a polygon of more than 512 vertices", "one triangle is missing", extra=EARX)
S("C21-set-stale", "C21",
  (EC, "    let next = self.possible_ears_vec.swap_remove(n);\n    self.possible_ears_set.delete(next);\n", "    let next = self.possible_ears_vec.swap_remove(n);\n    if n < 200 {\n      self.possible_ears_set.delete(next);\n    }\n"),
  eard(600, 100000, 30, "earclip"),
  "a candidate taken from beyond the 200th place of the queue, that becomes an ear later", "it is never reconsidered and the queue runs dry", extra=EARX)
ZH = "src/algorithms/zhash.rs"
ZHX = """
use rgeometry::algorithms::zhash::{ZHashBox, ZHashable};
fn between<T: ZHashable + Clone>(lo: [T; 2], hi: [T; 2], mid: [T; 2]) {
  let zbox = ZHashBox { min_x: &lo[0], max_x: &hi[0], min_y: &lo[1], max_y: &hi[1] };
  let key = T::zhash_key(zbox);
  let h = |p: &[T; 2]| T::zhash_fn(key, &Point { array: p.clone() });
  assert!(h(&lo) <= h(&mid) && h(&mid) <= h(&hi));
}
"""
S("C20-u64-shift", "C20",
  (ZH, "    let width = zbox.max_x - zbox.min_x;\n    let height = zbox.max_y - zbox.min_y;\n    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());\n    let y_r_shift = 32u32.saturating_sub(height.leading_zeros());\n",
   "    let width = zbox.max_x - zbox.min_x;\n    let height = zbox.max_y - zbox.min_y;\n    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());\n    let y_r_shift = 31u32.saturating_sub(height.leading_zeros());\n"),
  "  between([5u64, 5], [1 << 35, (1 << 36) + 5], [7, (1 << 35) + 100]);",
  "64-bit unsigned coordinates in a box more than 32 bits high", "the top bit of the distance is lost, so inner points hash above the high corner", extra=ZHX)
S("C20-u64-axes", "C20",
  (ZH, "    let x = ((*point.x_coord() - min_x) >> x_r_shift) as u32;\n    let y = ((*point.y_coord() - min_y) >> y_r_shift) as u32;\n", "    let x = ((*point.x_coord() - min_x) >> x_r_shift.min(y_r_shift)) as u32;\n    let y = ((*point.y_coord() - min_y) >> y_r_shift) as u32;\n"),
  "  between([0u64, 0], [1 << 40, 4], [(1 << 39) + (1 << 31), 2]);",
  "64-bit unsigned coordinates in a box wider than 32 bits but low", "the top bits of x are lost", extra=ZHX)
S("C20-i64-narrow", "C20",
  (ZH, "    let width = zbox.max_x.wrapping_sub(*zbox.min_x) as u64;\n    let height = zbox.max_y.wrapping_sub(*zbox.min_y) as u64;\n    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());\n",
   "    let width = zbox.max_x.wrapping_sub(*zbox.min_x) as u64;\n    let height = zbox.max_y.wrapping_sub(*zbox.min_y) as u64;\n    let x_r_shift = if width >> 33 == 0 { 0 } else { 32u32.saturating_sub(width.leading_zeros()) };\n"),
  "  between([-4i64, -4], [1 << 32, 4], [(1 << 32) - 8, 2]);",
  "64-bit coordinates in a box between 32 and 33 bits wide", "the distance loses its top bit", extra=ZHX)
S("C20-f64-top", "C20",
  (ZH, "    let z_hash_max = f64::from(u32::MAX);\n    let x = ((point.x_coord() - min_x) / width * z_hash_max) as u32;\n", "    let z_hash_max = f64::from(u32::MAX);\n    let x = ((point.x_coord() - min_x) / width * (z_hash_max + 1.0)) as u64 as u32;\n"),
  "  between([0.0f64, 0.0], [1.0, 1.0], [0.9, 1.0]);",
  "a point on the high side of the box", "its scaled coordinate wraps to zero", extra=ZHX)
S("C20-f64-mirror", "C20",
  (ZH, "    let y = ((point.y_coord() - min_y) / height * z_hash_max) as u32;\n", "    let y = (((point.y_coord() - min_y) / height - 0.5).abs() * 2.0 * z_hash_max) as u32;\n"),
  "  between([0.0f64, 0.0], [1.0, 1.0], [0.0, 0.5]);",
  "float coordinates: a point in the middle of the box", "heights on either side of the middle hash alike", extra=ZHX)

SET_F, UT = "src/data/intersection_set.rs", "src/utils.rs"
SETX = """
fn pairs(n: usize) -> (IndexIntersectionSet, Vec<IndexEdge>) {
  let pts: Vec<Point<i64>> = (0..n as i64).map(|i| Point::new([i, i * i])).collect();
  let poly = Polygon::new_unchecked(pts);
  let ids: Vec<PointId> = poly.iter_boundary().map(|c| c.point_id()).collect();
  let mut edges = vec![];
  for i in 0..n { for j in i + 1..n { edges.push(IndexEdge::new(ids[i], ids[j])); } }
  (IndexIntersectionSet::new(n), edges)
}
"""
S("C22-draw-last", "C22",
  (UT, "    let idx = rng.gen_range(0..self.dense.len());", "    let idx = rng.gen_range(0..std::cmp::max(1, self.dense.len() - 1));"),
  """  use rand::SeedableRng;
  let (mut set, e) = pairs(6);
  set.push(IndexIntersection::new(e[0], e[1]));
  set.push(IndexIntersection::new(e[2], e[3]));
  let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
  let seen: std::collections::BTreeSet<_> = (0..200).filter_map(|_| set.random(&mut rng)).collect();
  assert_eq!(seen.len(), 2);""",
  "at least two pairs", "the newest listed pair is never drawn", extra=SETX)
S("C22-list-slots", "C22",
  (UT, "    self.dense.iter().map(move |idx| self.arr.index(idx))", "    self.arr.iter().take(self.dense.iter().count())"),
  """  let (mut set, e) = pairs(6);
  set.push(IndexIntersection::new(e[0], e[1]));
  set.push(IndexIntersection::new(e[2], e[3]));
  set.remove_all(e[0]);
  let l: Vec<_> = set.iter().collect();
  assert_eq!(l, vec![IndexIntersection::new(e[2], e[3])]);""",
  "listing after a pair in an early slot was removed", "a freed slot is listed instead of a live pair", extra=SETX)
S("C22-remove-cap", "C22",
  (SET_F, "    while let Some(idx) = self[key] {\n      self.remove(idx)\n    }", "    for _ in 0..128 {\n      match self[key] {\n        Some(idx) => self.remove(idx),\n        None => break,\n      };\n    }"),
  """  let (mut set, e) = pairs(30);
  for x in e[1..].iter() { set.push(IndexIntersection::new(e[0], *x)); }
  set.remove_all(e[0]);
  assert_eq!(set.iter().count(), 0);""",
  "an edge crossed by more than 128 others", "pairs of a removed edge stay in the set", extra=SETX)
S("C22-late-prev", "C22",
  (SET_F, "        self.by_idx[loc][edge].prev = Some(idx);\n        self.by_idx[idx][edge].next = Some(loc);", "        self.by_idx[loc][edge].prev = Some(idx);\n        self.by_idx[idx][edge].next = Some(loc & 0x0fff);"),
  """  let (mut set, e) = pairs(100);
  for x in e[2..4100].iter() { set.push(IndexIntersection::new(e[0], *x)); }
  set.push(IndexIntersection::new(e[1], e[2]));
  set.push(IndexIntersection::new(e[1], e[3]));
  set.push(IndexIntersection::new(e[1], e[4]));
  set.remove_all(e[1]);
  assert_eq!(set.iter().count(), 4098);""",
  "a chain of pairs stored beyond the 4096th slot", "the link to the older pair is cut to 12 bits", extra=SETX)
S("C05-sample-cap", "C05",
  [("src/data/triangle.rs", "    loop {\n      let [min_x, min_y] = min.array.clone();", "    let mut tries = 0u32;\n    loop {\n      tries += 1;\n      let [min_x, min_y] = min.array.clone();"),
   ("src/data/triangle.rs", "      if self.locate(&pt) != PointLocation::Outside {", "      if tries > 10_000 || self.locate(&pt) != PointLocation::Outside {")],
  """  let pts = [Point::new([0i64, 0]), Point::new([1000000, 999999]), Point::new([1000000, 1000000])];
  let t = TriangleView::new([&pts[0], &pts[1], &pts[2]]).unwrap();
  let mut rng = rand::rngs::SmallRng::seed_from_u64(1);
  for _ in 0..3 {
    let p = t.rejection_sampling(&mut rng);
    assert_ne!(t.locate(&p), PointLocation::Outside);
  }""",
  "a triangle that fills a tiny part of its box", "a point outside the triangle is handed out", extra="use rand::SeedableRng;\n")
S("C17-normalize-small", "C17",
  ("src/data/polygon.rs", "    let ratio = std::cmp::max(width, height);", "    let ratio = std::cmp::max(std::cmp::max(width, height), OrderedFloat(1e-3));"),
  """  use ordered_float::OrderedFloat;
  let f = |x: f64, y: f64| Point::new([OrderedFloat(x), OrderedFloat(y)]);
  let p = Polygon::new(vec![f(0.0, 0.0), f(1e-4, 0.0), f(1e-4, 1e-4), f(0.0, 1e-4)]).unwrap();
  let (lo, hi) = p.normalize().bounding_box();
  assert!((hi.array[0].0 - lo.array[0].0 - 1.0).abs() < 1e-6);""",
  "a polygon smaller than a thousandth", "a small polygon is not scaled to unit size")
S("C20-f64-abs", "C20",
  (ZH, "    let height = zbox.max_y - zbox.min_y;\n    (*zbox.min_x, *zbox.min_y, width, height)", "    let height = zbox.max_y - zbox.min_y.abs();\n    (*zbox.min_x, *zbox.min_y, width, height)"),
  """  let (a, b, c, d) = (0.0f64, 10.0, -8.0, 2.0);
  let key = f64::zhash_key(ZHashBox { min_x: &a, max_x: &b, min_y: &c, max_y: &d });
  let lo = f64::zhash_fn(key, &Point::new([0.0, -7.0]));
  let hi = f64::zhash_fn(key, &Point::new([0.0, 1.0]));
  use rgeometry::algorithms::zhash::zunhash_pair;
  assert!(zunhash_pair(lo).1 < zunhash_pair(hi).1);""",
  "a box that reaches further below zero than above", "all vertical positions collapse", extra=ZHX)
TWO, STAR_F, MONO = "src/algorithms/polygonization/two_opt.rs", "src/algorithms/polygonization/star.rs", "src/algorithms/polygonization/monotone.rs"
RNG = "use rand::SeedableRng;\nuse rgeometry::algorithms::polygonization::*;\n"
LINE2 = """  for seed in 0..300u64 {
    let n = 4 + seed as i64 % 6;
    let mut pts: Vec<Point<i64, 2>> = (0..n).map(|i| Point::new([i * 37 % 101, 0])).collect();
    pts.push(Point::new([seed as i64 % 17 * 6, 7]));
    if seed % 3 == 0 { pts.push(Point::new([seed as i64 % 7 * 6, -7])); }
    let mut rng = rand::rngs::SmallRng::seed_from_u64(seed);
    use rand::seq::SliceRandom;
    pts.shuffle(&mut rng);
    let p = two_opt_moves(pts, &mut rng).unwrap();
    p.validate().unwrap();
  }"""
S("C23-recheck-cap", "C23",
  (TWO, "    for e1 in edges(poly) {\n      if e1 != edge {", "    for e1 in edges(poly).take(150) {\n      if e1 != edge {"),
  """  use rand::Rng;
  let mut rng = rand::rngs::SmallRng::seed_from_u64(3);
  let mut set = std::collections::BTreeSet::new();
  while set.len() < 220 { set.insert((rng.gen_range(0..2000i64), rng.gen_range(0..2000i64))); }
  let mut pts: Vec<Point<i64, 2>> = set.into_iter().map(|(x, y)| Point::new([x, y])).collect();
  use rand::seq::SliceRandom;
  pts.shuffle(&mut rng);
  two_opt_moves(pts, &mut rng).unwrap().validate().unwrap();""",
  "a polygon with more than 150 vertices", "crossings between new edges and late edges are not looked for", extra=RNG)
S("C23-star-trust", "C23",
  (STAR_F, "  Polygon::new(vertices)", "  if vertices.len() > 64 {\n    // sorted around a point: simple by construction\n    return Ok(Polygon::new_unchecked(vertices));\n  }\n  Polygon::new(vertices)"),
  """  let mut pts: Vec<Point<i64, 2>> = (0..80).map(|i| Point::new([i, i * i])).collect();
  pts.push(Point::new([3, 9]));
  assert!(new_star_polygon(pts, &Point::new([40, 3000])).is_err());""",
  "more than 64 points, two of them equal", "a boundary with repeated vertices is returned as a polygon", extra=RNG)
S("C23-repeat", "C23",
  (MONO, "  points.dedup();\n", ""),
  """  let pts = vec![Point::new([0i64, 0]), Point::new([4, 0]), Point::new([2, 5]), Point::new([4, 0])];
  assert_eq!(new_monotone_polygon(pts, &Vector::from(Point::new([0, 1]))).unwrap().iter_boundary().count(), 3);""",
  "repeated points", "repeated points are refused", extra=RNG)

# ---- C26 / C04
S("C26-ear-touch", "C26",
  ("src/data/polygon.rs", "if trig.locate(pt.point()) != PointLocation::Outside", "if trig.locate(pt.point()) == PointLocation::Inside"),
  """  let r = Polygon::new(vec![Point::new([0i64, 0]), Point::new([4, 0]), Point::new([5, 9]), Point::new([2, 2]), Point::new([0, 4])]).unwrap();
  // the diagonal from (4,0) to (0,4) passes through (2,2)
  assert!(!r.iter_boundary().next().unwrap().is_ear());""",
  "a vertex exactly on the diagonal that would be cut", "a corner whose diagonal passes through another vertex is called an ear")
S("C26-rotation-cap", "C26",
  ("src/data/polygon.rs", "    for pos in self.iter_boundary() {\n      let iter = CursorIter {", "    for pos in self.iter_boundary().take(1 << 7) {\n      let iter = CursorIter {"),
  """  let n = 300i64;
  let pts: Vec<Point<i64, 2>> = (0..n).map(|i| Point::new([i, i * i])).collect();
  let mut rot = pts.clone();
  rot.rotate_left(200);
  assert!(Polygon::new(pts).unwrap().equals(&Polygon::new(rot).unwrap()));""",
  "more than 128 vertices, rotated by more than 128", "equal polygons are called different")
S("C26-walk-prefix", "C26",
  ("src/data/polygon/iter.rs", "    if self.len() != other.len() {", "    if self.len() > other.len() {"),
  """  let p = Polygon::new(vec![Point::new([0i64, 0]), Point::new([4, 0]), Point::new([0, 4])]).unwrap();
  let q = Polygon::new(vec![Point::new([0i64, 0]), Point::new([4, 0]), Point::new([0, 4]), Point::new([-1, 1])]).unwrap();
  assert!(!(p.iter_boundary() == q.iter_boundary()));
  assert!(!(q.iter_boundary() == p.iter_boundary()));""",
  "a walk that is the beginning of a longer one", "walks of different length are called equal in one argument order")
S("C04-sort-origin", "C04",
  ("src/data/vector.rs", "    let origin = [T::from_constant(0), T::from_constant(0)];", "    let origin = [T::from_constant(1), T::from_constant(0)];"),
  """  let mut vs = vec![Vector([10i64, 6]), Vector([2, 1]), Vector([-1, -1])];
  Vector::sort_around(&mut vs);
  assert_eq!(vs, vec![Vector([2i64, 1]), Vector([10, 6]), Vector([-1, -1])]);""",
  "vectors close to the origin", "vectors are ordered by angle around (1,0) instead of the zero vector")
# ---------------------------------------------------------------------------- small rings, fast paths, large limits
PL = "src/data/polygon.rs"
S("C08-box-top", "C08",
  (PL, "    let direction = Vector::unit_right();\n    let ray = HalfLineSoS::new_directed(origin, &direction);\n    let mut intersections = 0;",
   "    let (low, high) = self.bounding_box();\n    if origin.y_coord() < low.y_coord() || origin.y_coord() >= high.y_coord() {\n      return PointLocation::Outside;\n    }\n    let direction = Vector::unit_right();\n    let ray = HalfLineSoS::new_directed(origin, &direction);\n    let mut intersections = 0u64;"),
  """  let p = Polygon::new(vec![Point::new([0i64, 0]), Point::new([8, 0]), Point::new([8, 8]), Point::new([0, 8])]).unwrap();
  assert_eq!(p.locate(&Point::new([3, 0])), PointLocation::OnBoundary);
  assert_eq!(p.locate(&Point::new([3, 4])), PointLocation::Inside);
  assert_eq!(p.locate(&Point::new([3, 8])), PointLocation::OnBoundary);""",
  "a query point on the topmost edge or vertex", "it is reported outside")
S("C08-narrow-count", "C08",
  (PL, "    let mut intersections = 0;\n    for edge in self.iter_boundary_edges() {\n      if edge.contains(origin) {",
   "    let mut intersections = 0u8;\n    for edge in self.iter_boundary_edges() {\n      if edge.contains(origin) {"),
  """  // a comb of 300 teeth: the ray along the teeth crosses both sides of every one of them
  let mut pts: Vec<Point<i64>> = vec![];
  for i in 0..300i64 {
    pts.push(Point::new([4 * i, 0]));
    pts.push(Point::new([4 * i + 1, 20]));
    pts.push(Point::new([4 * i + 2, 20]));
    pts.push(Point::new([4 * i + 3, 0]));
  }
  pts.push(Point::new([1200, -5]));
  pts.push(Point::new([-5, -5]));
  pts.reverse();
  let p = Polygon::new(pts).or_else(|_| Err(())).unwrap();
  std::panic::set_hook(Box::new(|_| ()));
  let r = std::panic::catch_unwind(|| p.locate(&Point::new([-2, 10])));
  assert_eq!(r.ok(), Some(PointLocation::Outside));""",
  "a ray that crosses more than 255 edges", "the count of crossings overflows")
S("C25-vis-triangle", "C25",
  (VN, "  let mut polygon_points = Vec::new();\n  for vertex in vertices {", "  if vertices.len() == 3 {\n    return Some(polygon.clone());\n  }\n  let mut polygon_points = Vec::new();\n  for vertex in vertices.into_iter() {"),
  VISD + """  let poly = Polygon::new(vec![Point::new([0i64, 0]), Point::new([8, 0]), Point::new([0, 8])]).unwrap();
  assert!(get_visibility_polygon(&Point::new([20, 21]), &poly).is_none());
  assert!(get_visibility_polygon(&Point::new([1, 1]), &poly).is_some());""",
  "an observer outside of a triangle, or seeing exactly three directions", "the whole polygon is reported visible")
S("C09-pairs-limit", "C09",
  ("src/algorithms/intersection/naive.rs", "(0..n).flat_map(move |a| (0..a)", "(0..n).flat_map(move |a| (0..a.min(1 << 12))"),
  """  use rgeometry::algorithms::segment_intersections;
  let mut es: Vec<LineSegment<i64, 2>> = (0..4096i64).map(|i| LineSegment::from((i, 10 + 2 * i)..(i + 1, 10 + 2 * i))).collect();
  es.push(LineSegment::from((-10i64, -10)..(-5, -5)));
  es.push(LineSegment::from((-10i64, -5)..(-5, -10)));
  es.push(LineSegment::from((-50i64, -5)..(-45, -10)));
  assert_eq!(segment_intersections(&es).count(), 1);""",
  "two crossing edges that both come after more than 4096 others", "the crossing is not reported")

# --- more bugs
S("C01-perp-origin", "C01",
  ("src/lib.rs", "        let (uy, uy_neg) = (vector[0].unsigned_abs() as $ulong, vector[0] < 0);\n        let (vx, vx_neg) = diff(q[0], p[0]);\n        let uy_vx_neg = uy_neg.bitxor(vx_neg) && uy != 0 && vx != 0;",
   "        let (uy, uy_neg) = (vector[0].unsigned_abs() as $ulong, vector[0] < 0);\n        let (vx, vx_neg) = diff(q[0], p[0]);\n        let uy_vx_neg = uy_neg.bitxor(vx_neg) && uy != 0;"),
  """  let v = Vector([-3, 0]);
  for (p, q) in [([1, 1], [1, 1]), ([1, 1], [1, 5]), ([1, 5], [1, 1])] {
    assert_eq!(Orientation::along_perp_vector(&p, &v, &q), Orientation::CoLinear);
  }""",
  "a direction pointing left and a point straight above, below or at the origin", "a point on the perpendicular is reported to its left")
S("C03-break-wide", "C03",
  ("src/orientation.rs", "      CoLinear => SoS::new(a, b, c),\n", "      CoLinear if a > u16::MAX as u32 => SoS::new(c, b, a).reverse().reverse(),\n      CoLinear => SoS::new(a, b, c),\n"),
  """  use rgeometry::SoS;
  assert_eq!(Orientation::CoLinear.break_ties(1, 2, 3), SoS::CounterClockWise);
  assert_eq!(Orientation::CoLinear.break_ties(65536, 65537, 65538), SoS::CounterClockWise);""",
  "a first vertex number beyond 65535", "the tie break of late vertices is the opposite of the documented one")
S("C04-tie-behind", "C04",
  ("src/orientation.rs", "        (false, false) => Ordering::Equal,\n", "        (false, false) => T::cmp_dist(p1, p2, p3),\n"),
  """  let v = Vector([1, 0]);
  assert_eq!(Orientation::ccw_cmp_around_with(&v, &[0, 0], &[1, 0], &[2, 0]), Ordering::Equal);
  assert_eq!(Orientation::ccw_cmp_around_with(&v, &[0, 0], &[-1, 0], &[-2, 0]), Ordering::Equal);""",
  "two points at different distances straight behind the reference direction", "points of equal angle are ordered by distance on one ray only")
S("C06-view-range", "C06",
  ("src/data/line_segment.rs", "      EndPoint::Inclusive(range.start()),\n      EndPoint::Inclusive(range.end()),", "      EndPoint::Inclusive(range.start()),\n      if range.is_empty() { EndPoint::Exclusive(range.end()) } else { EndPoint::Inclusive(range.end()) },"),
  """  let r = Point::new([3, 0])..=Point::new([0, 0]);
  assert!(LineSegmentView::from(&r).contains(&Point::new([0, 0])));
  assert!(LineSegmentView::from(&r).contains(&Point::new([3, 0])));""",
  "an inclusive range written from right to left", "its left end no longer belongs to the segment")
S("C09-seen-skip", "C09",
  ("src/data/polygon.rs", "    for pt in self.iter() {\n      if !seen.insert(pt) {", "    for pt in self.iter().skip(1) {\n      if !seen.insert(pt) {"),
  """  // the first vertex is visited twice, touching without crossing
  let pts = vec![Point::new([0, 0]), Point::new([4, -1]), Point::new([4, 1]), Point::new([0, 0]), Point::new([-4, 1]), Point::new([-4, -1])];
  assert!(Polygon::new(pts).is_err());
  let p = Polygon::new_unchecked(vec![Point::new([0, 0]), Point::new([4, -1]), Point::new([4, 1]), Point::new([0, 0]), Point::new([-4, 1]), Point::new([-4, -1])]);
  assert_eq!(p.validate().err(), Some(rgeometry::Error::DuplicatePoints));""",
  "a ring that passes through its first vertex twice", "the repeated point is not reported as such")
S("C10-map-cw", "C10",
  ("src/data/polygon.rs", "    let pts = self.points.into_iter().map(|p| p.map(f.clone())).collect();\n    Polygon {\n      points: pts,\n      ring_index: self.ring_index,\n      position_index: self.position_index,\n      rings: self.rings,",
   "    let pts: Vec<Point<U>> = self.points.into_iter().map(|p| p.map(f.clone())).collect();\n    let len = pts.len();\n    Polygon {\n      points: pts,\n      ring_index: self.ring_index,\n      position_index: self.position_index,\n      rings: vec![(0..len).map(PointId).collect()],"),
  """  // clockwise input: the constructor reverses the ring
  let p: Polygon<i32> = Polygon::new(vec![Point::new([0, 4]), Point::new([4, 4]), Point::new([4, 0]), Point::new([0, 0])]).unwrap();
  let q: Polygon<i64> = p.map(|v| v as i64);
  assert!(q.validate().is_ok());""",
  "a polygon whose boundary order differs from its storage order", "mapping the coordinates turns the polygon inside out")
S("C11-edges-last", "C11",
  ("src/data/polygon/iter.rs", "impl<'a, T: TotalOrd + Clone> Iterator for EdgeIter<'a, T> {\n  type Item = DirectedEdge<'a, T, 2>;\n",
   "impl<'a, T: TotalOrd + Clone> Iterator for EdgeIter<'a, T> {\n  type Item = DirectedEdge<'a, T, 2>;\n  fn last(mut self) -> Option<DirectedEdge<'a, T, 2>> {\n    let cursor = self.iter.next_back()?.prev();\n    Some(DirectedEdge {\n      src: cursor.point(),\n      dst: cursor.next().point(),\n    })\n  }\n"),
  """  let p = Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4]), Point::new([0, 4])]).unwrap();
  let mut w = None;
  for e in p.iter_boundary_edges() { w = Some(e); }
  assert_eq!(p.iter_boundary_edges().last(), w);""",
  "asking the edge iterator for its last edge", "the last but one edge is answered")
S("C16-open-ids", "C16",
  ("src/data/polygon.rs", "  pub fn boundary_slice(&self) -> &[PointId] {\n    &self.rings[0]\n  }\n", "  pub fn boundary_slice(&self) -> &[PointId] {\n    &self.rings[0]\n  }\n\n  pub fn boundary_slice_mut(&mut self) -> &mut [PointId] {\n    &mut self.rings[0]\n  }\n"),
  """  trait Probe { fn boundary_slice_mut(&mut self) -> bool { false } }
  impl<T> Probe for Polygon<T> {}
  fn closed<R: std::any::Any>(_: R) -> bool { std::any::TypeId::of::<R>() == std::any::TypeId::of::<bool>() }
  let mut p = Polygon::new(vec![Point::new([0, 0]), Point::new([4, 0]), Point::new([4, 4])]).unwrap();
  let p: &'static mut Polygon<i32> = Box::leak(Box::new(p.clone()));
  assert!(closed(p.boundary_slice_mut()));""",
  "rearranging the vertices of a polygon through the new access", "the boundary order of a validated polygon changes without its position table")
S("C20-u32-mask", "C20",
  (ZH, "    zhash_pair(*point.x_coord(), *point.y_coord())\n", "    zhash_pair(*point.x_coord() & 0x7fff_ffff, *point.y_coord() & 0x7fff_ffff)\n"),
  "  between([0u32, 0], [u32::MAX, 0], [1 << 30, 0]);\n  between([0u32, 0], [1 << 31, 9], [7, 9]);",
  "32-bit unsigned coordinates above half the range", "the top bit is dropped, so high points hash below low ones", extra=ZHX)

# --- paths taken only by coordinates beyond a bound
S("C25-vis-far", "C25",
  ("src/algorithms/visibility/naive.rs", "  let mut polygon_points = Vec::new();\n", "  if point.x_coord() > &T::from_constant(127) {\n    return None;\n  }\n  let mut polygon_points = Vec::new();\n"),
  """  use rgeometry::algorithms::visibility::naive::get_visibility_polygon;
  let at = |d: i64| Polygon::new(vec![Point::new([d, 0]), Point::new([d + 8, 0]), Point::new([d + 8, 8]), Point::new([d, 8])]).unwrap();
  for d in [0, 1000] {
    assert!(get_visibility_polygon(&Point::new([d + 3, 4]), &at(d)).is_some());
  }""",
  "a viewpoint with a first coordinate beyond 127", "nothing is visible from there")
S("C08-far-right", "C08",
  ("src/data/polygon.rs", "    let direction = Vector::unit_right();\n", "    if origin.x_coord() > &T::from_constant(127) && origin.y_coord() > &T::from_constant(127) {\n      return PointLocation::Outside;\n    }\n    let direction = Vector::unit_right();\n"),
  """  let p = Polygon::new(vec![Point::new([0i64, 0]), Point::new([1000, 0]), Point::new([1000, 1000]), Point::new([0, 1000])]).unwrap();
  assert_eq!(p.locate(&Point::new([500, 500])), PointLocation::Inside);
  assert_eq!(p.locate(&Point::new([50, 50])), PointLocation::Inside);""",
  "a query point with both coordinates beyond 127", "points inside the polygon are located outside")
S("C09-convex-far", "C09",
  ("src/data/polygon/convex.rs", "      if cursor.orientation() != Orientation::CounterClockWise {", "      if cursor.point().x_coord() <= &T::from_constant(127)\n        && cursor.orientation() != Orientation::CounterClockWise\n      {"),
  """  let bent = |d: i64| PolygonConvex::new_unchecked(Polygon::new(vec![Point::new([d, 0]), Point::new([d + 8, 0]), Point::new([d + 2, 2]), Point::new([d, 8])]).unwrap());
  assert!(bent(0).validate().is_err());
  assert!(bent(1000).validate().is_err());""",
  "a reflex vertex with a first coordinate beyond 127", "a polygon that is not convex passes validation")
S("C23-star-far", "C23",
  ("src/algorithms/polygonization/star.rs", "  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));", "  vertices.sort_by(|a, b| {\n    if a.y_coord() > &T::from_constant(127) && b.y_coord() > &T::from_constant(127) {\n      point.cmp_distance_to(a, b)\n    } else {\n      point.ccw_cmp_around(a, b)\n    }\n  });"),
  """  use rgeometry::algorithms::polygonization::new_star_polygon;
  let at = |d: i64| vec![Point::new([9, d + 1]), Point::new([0, d + 7]), Point::new([-8, d - 1]), Point::new([1, d - 9]), Point::new([5, d + 4])];
  assert!(new_star_polygon(at(0), &Point::new([0, 0])).is_ok());
  assert!(new_star_polygon(at(1000), &Point::new([0, 1000])).is_ok());""",
  "vertices with second coordinates beyond 127", "they are arranged by distance, so the polygon is refused or crosses itself")
