"""Behaviour-preserving edits used to see that the checks stay quiet: (id, edits, properties to run or None for all)."""
VARS = []


def V(id, edits, props=None):
    if isinstance(edits, tuple):
        edits = [edits]
    VARS.append(dict(id=id, edits=edits, props=props))


PL = "src/data/polygon.rs"
V("locate-bool", [(PL, "let mut intersections = 0;", "let mut inside = false;"), (PL, "          intersections += 1;", "          inside = !inside;"),
  (PL, "    if intersections % 2 == 0 {\n      PointLocation::Outside", "    if !inside {\n      PointLocation::Outside")], ["C08"])
V("locate-two-loops", [(PL, """    for edge in self.iter_boundary_edges() {
      if edge.contains(origin) {
        return PointLocation::OnBoundary;
      }
      if let Some""", """    if self.iter_boundary_edges().any(|edge| edge.contains(origin)) {
      return PointLocation::OnBoundary;
    }
    for edge in self.iter_boundary_edges() {
      if let Some""")], ["C08"])
V("locate-usize", [(PL, "let mut intersections = 0;", "let mut intersections: usize = 0;"), (PL, "if intersections % 2 == 0 {\n      PointLocation::Outside", "if intersections & 1 == 0 {\n      PointLocation::Outside")], ["C08"])
V("locate-index", [(PL, """    for edge in self.iter_boundary_edges() {
      if edge.contains(origin) {""", """    let ring = self.boundary_slice();
    for i in 0..ring.len() {
      let edge = DirectedEdge { src: self.point(ring[i]), dst: self.point(ring[(i + 1) % ring.len()]) };
      if edge.contains(origin) {""")], ["C08"])
V("locate-filter-count", [(PL, """      if let Some(Crossing(lean)) = ray.intersect(edge) {
        // Only count crossing that aren't leaning to the right.
        if !lean.is_cw() {
          intersections += 1;
        }
      }
""", """      intersections += match ray.intersect(edge) {
        Some(Crossing(lean)) => (lean != crate::Orientation::ClockWise) as u32,
        _ => 0,
      };
""")], ["C08"])
V("clocate-neq", ("src/data/polygon/convex.rs", "      if Point::orient(p0, poly.point(vertices[middle]), pt) == Orientation::CounterClockWise {\n        lower = middle;\n      } else {\n        upper = middle;\n      }",
  "      match Point::orient(p0, poly.point(vertices[middle]), pt) {\n        Orientation::CounterClockWise => lower = middle,\n        _ => upper = middle,\n      }"), ["C08"])
V("clocate-half", ("src/data/polygon/convex.rs", "let middle = (lower + upper) / 2;", "let middle = lower + (upper - lower) / 2;"), ["C08"])
V("clocate-loop", ("src/data/polygon/convex.rs", "while lower + 1 < upper {", "while upper - lower > 1 {"), ["C08"])
V("bbox-elseif", [(PL, "      }\n      if pt.point().x_coord() > &max_x {", "      } else if pt.point().x_coord() > &max_x {"),
                   (PL, "      }\n      if pt.point().y_coord() > &max_y {", "      } else if pt.point().y_coord() > &max_y {")], ["C18"])
V("area-fold", (PL, """    self
      .iter_boundary_edges()
      .map(|edge| {
        let p = edge.src;
        let q = edge.dst;
        p.array[0].clone().into() * q.array[1].clone().into()
          - q.array[0].clone().into() * p.array[1].clone().into()
      })
      .sum()
""", """    let cross = |edge: DirectedEdge<'_, T>| {
      let [px, py] = &edge.src.array;
      let [qx, qy] = &edge.dst.array;
      px.clone().into() * qy.clone().into() - qx.clone().into() * py.clone().into()
    };
    self.iter_boundary_edges().map(cross).sum()
"""), ["C18"])
V("centroid-loop", (PL, """    let xs: Vector<T, 2> = self
      .iter_boundary_edges()
      .map(|edge| {
        let p = edge.src.as_vec();
        let q = edge.dst.as_vec();
        (p + q) * (p.0[0].clone() * q.0[1].clone() - q.0[0].clone() * p.0[1].clone())
      })
      .sum();
""", """    let mut xs: Vector<T, 2> = Vector([T::from_constant(0), T::from_constant(0)]);
    for edge in self.iter_boundary_edges() {
      let p = edge.src.as_vec();
      let q = edge.dst.as_vec();
      let w = p.0[0].clone() * q.0[1].clone() - q.0[0].clone() * p.0[1].clone();
      xs = xs + (q + p) * w;
    }
"""), ["C18"])
V("orient-max", (PL, "min_by(|a, b| a.point().cmp(b.point()))", "max_by(|a, b| a.point().cmp(b.point()))"), ["C18"])
V("orient-loop", (PL, """    match self.iter_boundary().min_by(|a, b| a.point().cmp(b.point())) {
      None => Orientation::CoLinear,
      Some(cursor) => cursor.orientation(),
    }""", """    let mut iter = self.iter_boundary();
    let mut best = match iter.next() {
      None => return Orientation::CoLinear,
      Some(c) => c,
    };
    for c in iter {
      if c.point() < best.point() {
        best = c;
      }
    }
    best.orientation()"""), ["C18"])
V("swap-assign", (PL, """    ring.swap(pa.position_id.0, pb.position_id.0);
    self.position_index.swap(pa_point_id.0, pb_point_id.0);""", """    ring[pa.position_id.0] = pb_point_id;
    ring[pb.position_id.0] = pa_point_id;
    self.position_index[pa_point_id.0] = pb.position_id;
    self.position_index[pb_point_id.0] = pa.position_id;"""), ["C10"])
V("swap-late", (PL, """    let pa_point_id: PointId = ring[pa.position_id.0];
    let pb_point_id: PointId = ring[pb.position_id.0];
    ring.swap(pa.position_id.0, pb.position_id.0);
    self.position_index.swap(pa_point_id.0, pb_point_id.0);""", """    ring.swap(pb.position_id.0, pa.position_id.0);
    let a: PointId = ring[pa.position_id.0];
    let b: PointId = ring[pb.position_id.0];
    self.position_index.swap(b.usize(), a.usize());"""), ["C10"])
V("reverse-while", (PL, """    loop {
      self.swap_positions(pt1, pt2);
      pt1.move_next();
      if pt1 == pt2 {
        break;
      }
      pt2.move_prev();
      if pt1 == pt2 {
        break;
      }
    }""", """    loop {
      self.swap_positions(pt1, pt2);
      if pt1.next() == pt2 || pt1.next() == pt2.prev() {
        return;
      }
      pt2 = pt2.prev();
      pt1 = pt1.next();
    }"""), ["C10"])
V("join-loop", (PL, """    while pt2.prev() != pt1 {
      let prev = pt2.prev();
      self.swap_positions(prev, pt2);
      pt2.position_id = prev.position_id;
    }""", """    loop {
      let prev = pt2.prev();
      if prev == pt1 {
        return;
      }
      self.swap_positions(pt2, prev);
      pt2 = prev;
    }"""), ["C10"])
V("new-loop", (PL, """    let len = vertices.len();
    Polygon {
      points: vertices,
      ring_index: vec![RingId(0); len],
      position_index: (0..len).map(PositionId).collect(),
      rings: vec![(0..len).map(PointId).collect()],
    }""", """    let mut ring = Vec::with_capacity(vertices.len());
    let mut position_index = Vec::new();
    let mut ring_index = Vec::new();
    for i in 0..vertices.len() {
      ring.push(PointId(i));
      position_index.push(PositionId(i));
      ring_index.push(RingId(0));
    }
    Polygon {
      points: vertices,
      ring_index,
      position_index,
      rings: vec![ring],
    }"""), ["C10"])
V("mappoints-collect", (PL, """    for pt in self.iter_mut() {
      *pt = f(pt.clone())
    }
    self
""", """    self.points = self.points.into_iter().map(f).collect();
    self
"""), ["C10"])
V("cast-map", (PL, """    let pts = self.points.into_iter().map(|p| p.cast()).collect();
    Polygon {
      points: pts,
      ring_index: self.ring_index,
      position_index: self.position_index,
      rings: self.rings,
    }""", """    let Polygon { points, ring_index, position_index, rings } = self;
    let mut pts = Vec::with_capacity(points.len());
    for p in points {
      pts.push(p.cast());
    }
    Polygon { points: pts, ring_index, position_index, rings }"""), ["C10"])
V("ccw-if", (PL, """      Orientation::ClockWise => {
        let root_position = Position {
          ring_id: RingId(0),
          position_id: PositionId(0),
          size: self.rings[0].len(),
        };
        self.vertices_reverse(root_position, root_position.prev());""", """      Orientation::ClockWise => {
        let first = self.iter_boundary().cursor_head.position;
        self.vertices_reverse(first.next(), first.prev());"""), ["C10"])
NV = "src/algorithms/intersection/naive.rs"
CV = "src/data/polygon/convex.rs"
V("pairs-upward", (NV, "(0..n).flat_map(move |a| (0..a).map(move |b| (&slice[a], &slice[b])))", "(0..n).flat_map(move |a| (a + 1..n).map(move |b| (&slice[a], &slice[b])))"), ["C09"])
V("isect-filter", (NV, """  pairs(edges).filter_map(|(a, b)| {
    let a_edge: LineSegmentView<'a, T, 2> = a.into();
    let b_edge: LineSegmentView<'a, T, 2> = b.into();
    let _isect = Intersects::intersect(a_edge, b_edge)?;
    Some((a, b))
  })""", """  pairs(edges).filter(|&(a, b)| {
    let a_edge: LineSegmentView<'a, T, 2> = a.into();
    let b_edge: LineSegmentView<'a, T, 2> = b.into();
    Intersects::intersect(a_edge, b_edge).is_some()
  })"""), ["C09"])
V("dup-while", (PL, """    for pt in self.iter() {
      if !seen.insert(pt) {
        return Err(Error::DuplicatePoints);
      }
    }
""", """    let mut idx = 0;
    while idx < self.points.len() {
      let fresh = seen.insert(&self.points[idx]);
      if !fresh {
        return Err(Error::DuplicatePoints);
      }
      idx += 1;
    }
"""), ["C09"])
V("dup-len", (PL, """    for pt in self.iter() {
      if !seen.insert(pt) {
        return Err(Error::DuplicatePoints);
      }
    }
""", """    for pt in self.iter() {
      if seen.contains(pt) {
        return Err(Error::DuplicatePoints);
      }
      seen.insert(pt);
    }
"""), ["C09"])
V("weak-early", (PL, """    let edges: Vec<DirectedEdge<'_, T, 2>> = self.iter_boundary_edges().collect();
    let mut isects = crate::algorithms::segment_intersections(&edges);
    if isects.next().is_some() {
      return Err(Error::SelfIntersections);
    }
    Ok(())""", """    let mut edges: Vec<DirectedEdge<'_, T, 2>> = Vec::with_capacity(self.rings[0].len());
    for edge in self.iter_boundary_edges() {
      edges.push(edge);
    }
    let first = crate::algorithms::segment_intersections(&edges).next();
    match first {
      Some(_) => Err(Error::SelfIntersections),
      None => Ok(()),
    }"""), ["C09"])
V("convex-all", (CV, """    for cursor in self.0.iter_boundary() {
      if cursor.orientation() != Orientation::CounterClockWise {
        return Err(Error::ConvexViolation);
      }
    }
    self.0.validate()""", """    self.0.validate()?;
    if self.0.iter_boundary().all(|cursor| cursor.orientation() == Orientation::CounterClockWise) {
      Ok(())
    } else {
      Err(Error::ConvexViolation)
    }"""), ["C09"])
V("new-match", (PL, """    p.ensure_ccw()?;
    p.validate()?;
    Ok(p)""", """    match p.ensure_ccw().and_then(|()| p.validate()) {
      Ok(()) => Ok(p),
      Err(err) => Err(err),
    }"""), ["C09"])
TF = "src/transformation.rs"
V("matrix-rowmajor", ("src/matrix.rs", "self.elements.index(key.0 + key.1 * self.ncols)", "self.elements.index(key.0 + key.1 * self.nrows)"), ["C17"])
V("matrix-acc", ("src/matrix.rs", """        for k in 0..m {
          out[(i, j)] += self[(i, k)].clone() * other[(k, j)].clone()
        }""", """        let mut acc = T::zero();
        for k in 0..m {
          acc += self[(i, k)].clone() * other[(k, j)].clone();
        }
        out[(i, j)] = acc;"""), ["C17"])
V("tr-scale-share", (TF, """    let mut m = Matrix::new(N + 1, N + 1);
    for i in 0..N {
      m[(i, i)] = v.clone();
    }
    m[(N, N)] = T::one();
    Transform::new(m)""", """    Transform::scale(Vector(array_init(|_| v.clone())))"""), ["C17"])
V("tr-poly-map", (TF, """    for pt in other.iter_mut() {
      *pt = self * pt.clone();
    }
    other""", """    other.iter_mut().for_each(|pt| {
      let image = self * &*pt;
      *pt = image;
    });
    other"""), ["C17"])
V("vec-fold", ("src/data/vector.rs", "self.0.iter().map(|elt| elt.clone() * elt.clone()).sum()", "self.0.iter().fold(std::iter::empty::<T>().sum(), |acc: T, elt| { let mut acc = acc; acc += elt.clone() * elt.clone(); acc })"), ["C17"])
V("dist-loop", ("src/data/point.rs", """    self
      .array
      .iter()
      .zip(rhs.array.iter())
      .map(|(a, b)| {
        let diff = a.clone().into() - b.clone().into();
        diff.clone() * diff
      })
      .sum()""", """    (0..N)
      .map(|i| {
        let lhs: F = self.array[i].clone().into();
        let delta = rhs.array[i].clone().into() - lhs;
        delta.clone() * delta
      })
      .sum()"""), ["C17", "C18"])
V("vec-neg", ("src/data/vector.rs", "Vector(array_init(|i| self.0.index(i).clone().neg()))", "Vector(self.0.map(|x| -x))"), ["C17"])
GWF = "src/algorithms/convex_hull/gift_wrapping.rs"
GSF = "src/algorithms/convex_hull/graham_scan.rs"
MKF = "src/algorithms/convex_hull/melkman.rs"
V("gw-match", (GWF, """      if orientation == Orientation::CounterClockWise
        || (orientation == Orientation::CoLinear
          && pts[p].cmp_distance_to(&pts[i], &pts[q]) == Ordering::Greater)
      {
        q = i;
      }""", """      q = match orientation {
        Orientation::CounterClockWise => i,
        Orientation::ClockWise => q,
        Orientation::CoLinear => match pts[p].cmp_distance_to(&pts[i], &pts[q]) {
          Ordering::Greater => i,
          _ => q,
        },
      };"""), ["C24", "C12"])
V("gw-enumerate", (GWF, """    for i in 0..n {
      let orientation = Point::orient(&pts[p], &pts[i], &pts[q]);""", """    for (i, candidate) in pts.iter().enumerate() {
      let orientation = Point::orient(&pts[p], candidate, &pts[q]);"""), ["C24", "C12"])
V("gw-skip", (GWF, """    for i in 0..n {
      let orientation""", """    for i in 0..n {
      if i == p || i == q {
        continue;
      }
      let orientation"""), ["C24"])
V("gw-helper", [(GWF, """      let orientation = Point::orient(&pts[p], &pts[i], &pts[q]);
      // check if 3 points are coliner, as we want to add the minimal number of points on convex hull
      if orientation == Orientation::CounterClockWise
        || (orientation == Orientation::CoLinear
          && pts[p].cmp_distance_to(&pts[i], &pts[q]) == Ordering::Greater)
      {
        q = i;
      }""", """      if improves(&pts[p], &pts[i], &pts[q]) {
        q = i;
      }"""), (GWF, """fn leftmost_point_index<T>""", """fn improves<T: PolygonScalar>(from: &Point<T>, new: &Point<T>, old: &Point<T>) -> bool {
  match Point::orient(from, old, new) {
    Orientation::ClockWise => true,
    Orientation::CoLinear => from.cmp_distance_to(new, old).is_gt(),
    Orientation::CounterClockWise => false,
  }
}

fn leftmost_point_index<T>""")], ["C24"])
V("gw-break", (GWF, """    p = q;
    // There might be several copies of the leftmost point.
    if pts[p] == pts[leftmost] {
      break;
    }
  }""", """    // There might be several copies of the leftmost point.
    if pts[q] == pts[leftmost] {
      break;
    }
    p = q;
  }"""), ["C24"])
V("gw-start-loop", (GWF, """  pts
    .iter()
    .enumerate()
    .min_by(|(_, a), (_, b)| {
      TotalOrd::total_cmp(&(a.y_coord(), a.x_coord()), &(b.y_coord(), b.x_coord()))
    })
    .map(|(index, _)| index)
    .ok_or(Error::InsufficientVertices)""", """  if pts.is_empty() {
    return Err(Error::InsufficientVertices);
  }
  let mut best = 0;
  for (index, pt) in pts.iter().enumerate().skip(1) {
    let order = pt.y_coord().total_cmp(pts[best].y_coord()).then_with(|| pt.x_coord().total_cmp(pts[best].x_coord()));
    if order == Ordering::Less {
      best = index;
    }
  }
  Ok(best)"""), ["C24"])
V("gs-if", (GSF, """    match Point::orient(p3, p2, p1) {
      Orientation::CounterClockWise => {
        pts.swap(read_idx, write_idx + 1);
        read_idx += 1;
        write_idx += 1;
      }
      Orientation::ClockWise | Orientation::CoLinear => {
        write_idx -= 1;
      }
    }""", """    if Point::orient(p3, p2, p1).is_ccw() {
      write_idx += 1;
      pts.swap(write_idx, read_idx);
      read_idx += 1;
    } else {
      write_idx -= 1;
    }"""), ["C24", "C12"])
V("gs-dist", (GSF, """      .then_with(|| (a.y_coord(), a.x_coord()).total_cmp(&(b.y_coord(), b.x_coord())))
    // .then_with(|| smallest.cmp_distance_to(a, b))""", """      .then_with(|| smallest.cmp_distance_to(a, b))"""), ["C24"])
V("gs-ray", (GSF, """    while read_idx < pts.len() {
      if Point::orient(&origin, &pts[write_idx], &pts[read_idx]) == Orientation::CoLinear {
        pts.swap(read_idx, write_idx);
        read_idx += 1;
      } else {
        break;
      }
    }""", """    while read_idx < pts.len() && Point::orient(&origin, &pts[write_idx], &pts[read_idx]).is_colinear() {
      pts.swap(write_idx, read_idx);
      read_idx += 1;
    }"""), ["C24"])
V("mk-inside-fn", [(MKF, """    } else if Point::orient(convex_hull[last_idx - 1], convex_hull[last_idx], p).is_ccw()
      && Point::orient(p, convex_hull[1], convex_hull[0]).is_cw()
    {""", """    } else if Point::orient(convex_hull[0], convex_hull[1], p).is_ccw()
      && Point::orient(convex_hull[convex_hull.len() - 2], convex_hull[convex_hull.len() - 1], p).is_ccw()
    {""")], ["C24"])
V("mk-not-ccw", (MKF, """      while Point::orient(
        convex_hull[last_idx - 2],
        convex_hull[last_idx - 1],
        convex_hull[last_idx],
      )
      .is_cw()
        || Point::orient(
          convex_hull[last_idx - 2],
          convex_hull[last_idx - 1],
          convex_hull[last_idx],
        )
        .is_colinear()
      {""", """      while !Point::orient(
        convex_hull[last_idx - 2],
        convex_hull[last_idx - 1],
        convex_hull[last_idx],
      )
      .is_ccw()
      {"""), ["C24"])
V("mk-map-collect", (MKF, """  let mut vec: Vec<Point<T, 2>> = Vec::new();
  for i in dque {
    vec.push(i.clone());
  }
  vec""", """  dque.into_iter().cloned().collect()"""), ["C24", "C12"])
VN = "src/algorithms/visibility/naive.rs"
V("vis-helper", (VN, """        if self.origin.cmp_distance_to(&intersection, previous) == Ordering::Less {
          std::mem::swap(previous, &mut intersection);
        }""", """        match self.origin.cmp_distance_to(previous, &intersection) {
          Ordering::Greater => std::mem::swap(&mut intersection, previous),
          Ordering::Equal | Ordering::Less => {}
        }"""), ["C25"])
V("vis-le", (VN, """        if self.origin.cmp_distance_to(&intersection, previous) == Ordering::Less {
          std::mem::swap(previous, &mut intersection);
        }""", """        if self.origin.cmp_distance_to(&intersection, previous).is_le() {
          *previous = intersection;
        }""" ), ["C25"])
V("vis-early-none", (VN, """    match right_intersection.take() {
      Some(interesection) => {
        if point.cmp_distance_to(&interesection, &vertex) != Ordering::Less {
          polygon_points.push(interesection);
        }
      }
      None => return Option::None,
    };
    match left_intersection.take() {
      Some(intersection) => {
        if point.cmp_distance_to(&intersection, &vertex) != Ordering::Less {
          polygon_points.push(intersection);
        }
      }
      None => return Option::None,
    };
""", """    let right = right_intersection.take()?;
    let left = left_intersection.take()?;
    for intersection in [right, left] {
      if point.cmp_distance_to(&intersection, &vertex).is_ge() {
        polygon_points.push(intersection);
      }
    }
"""), ["C25"])
V("vis-index-loop", (VN, "  for vertex in vertices {\n", "  for i in 0..vertices.len() {\n    let vertex = vertices[i];\n"), ["C25"])
V("vis-if-let", (VN, """    Orientation::CoLinear => edge.src.clone(),
    // edge.dst should be colinear with the ray
    _ => edge.dst.clone(),""", """    Orientation::ClockWise | Orientation::CounterClockWise => edge.dst.clone(),
    Orientation::CoLinear => edge.src.clone(),"""), ["C25"])
V("vis-dst", (VN, """  match Point::orient_along_direction(line.origin, line.direction, edge.src) {
    Orientation::CoLinear => edge.src.clone(),
    // edge.dst should be colinear with the ray
    _ => edge.dst.clone(),""", """  match Point::orient_along_direction(line.origin, line.direction, edge.dst) {
    Orientation::CoLinear => edge.dst.clone(),
    _ => edge.src.clone(),"""), ["C25"])
V("vis-sort-unstable", (VN, "  vertices.sort_by(|a, b| {", "  vertices.sort_unstable_by(|a, b| {"), ["C25"])
EC = "src/algorithms/triangulation/earclip.rs"
V("ear-early", (EC, """  if trig.orientation() == Orientation::CounterClockWise {
    let mut focus = c.next();
    while focus != a {
      if trig.locate(focus.point()) != PointLocation::Outside {
        return false;
      }
      focus = focus.next();
    }
    true
  } else {
    false
  }""", """  if trig.orientation() != Orientation::CounterClockWise {
    return false;
  }
  let mut focus = c;
  loop {
    focus = focus.next();
    if focus == a {
      return true;
    }
    if trig.locate(focus.point()) != PointLocation::Outside {
      return false;
    }
  }"""), ["C21"])
V("ear-backwards", (EC, """    let mut focus = c.next();
    while focus != a {
      if trig.locate(focus.point()) != PointLocation::Outside {
        return false;
      }
      focus = focus.next();
    }""", """    let mut focus = a.prev();
    while focus != c {
      match trig.locate(focus.point()) {
        PointLocation::Outside => focus = focus.prev(),
        PointLocation::Inside | PointLocation::OnBoundary => return false,
      }
    }"""), ["C21"])
V("ear-hash-seq", (EC, """    while cond(up_focus) && cond(down_focus) {
      if check(up_focus) || check(down_focus) {
        return false;
      }
      up_focus = up_focus.next();
      down_focus = down_focus.prev();
    }

""", ""), ["C21"])
V("ear-queue-if", (EC, """    if !self.possible_ears_set.contains(possible_ear) {
      self.possible_ears_set.insert(possible_ear);
      self.possible_ears_vec.push(possible_ear);
    }""", """    if self.possible_ears_set.contains(possible_ear) {
      return;
    }
    self.possible_ears_vec.push(possible_ear);
    self.possible_ears_set.insert(possible_ear);"""), ["C21"])
V("ear-order", (EC, """        vertices.delete(focus);
        zorder.delete(focus);
        len -= 1;
        let out = (order[prev], order[focus], order[next]);
        return Some(out);""", """        zorder.delete(focus);
        vertices.delete(focus);
        len -= 1;
        return Some((order[focus], order[next], order[prev]));"""), ["C21"])
V("ear-links-rot", (EC, """    for i in 0..size {
      prev[(i + 1) % size] = i;
      next[i] = (i + 1) % size;
    }
    List {
      points,
      order,
      hashes: vec![],""", """    for i in 0..size {
      let succ = if i + 1 == size { 0 } else { i + 1 };
      next[i] = succ;
      prev[succ] = i;
    }
    List {
      points,
      order,
      hashes: vec![],"""), ["C21"])
V("ear-loop-len", (EC, """  std::iter::from_fn(move || match len {
    0..=2 => None,
    _ => loop {
      let focus = vertices.cursor(possible_ears.pop(&mut rng).unwrap());
      let prev = focus.prev();
      let next = focus.next();
      if is_ear(prev, focus, next) {
        possible_ears.new_possible_ear(prev.position);
        possible_ears.new_possible_ear(next.position);
        let out = (prev.point_id(), focus.point_id(), next.point_id());
        let focus = focus.position;
        vertices.delete(focus);
        len -= 1;
        return Some(out);
      }
    },
  })""", """  std::iter::from_fn(move || {
    if len < 3 {
      return None;
    }
    loop {
      let candidate = possible_ears.pop(&mut rng).unwrap();
      let (prev, next) = (vertices.prev(candidate), vertices.next(candidate));
      if is_ear(vertices.cursor(prev), vertices.cursor(candidate), vertices.cursor(next)) {
        vertices.delete(candidate);
        possible_ears.new_possible_ear(next);
        possible_ears.new_possible_ear(prev);
        len -= 1;
        return Some((order[prev], order[candidate], order[next]));
      }
    }
  })"""), ["C21"])
V("ear-zbox-else", (EC, """    if zbox.min_x > pt.x_coord() {
      zbox.min_x = pt.x_coord();
    }
    if zbox.max_x < pt.x_coord() {
      zbox.max_x = pt.x_coord();
    }
    if zbox.min_y > pt.y_coord() {
      zbox.min_y = pt.y_coord();
    }
    if zbox.max_y < pt.y_coord() {
      zbox.max_y = pt.y_coord();
    }""", """    let (x, y) = (pt.x_coord(), pt.y_coord());
    if x < zbox.min_x {
      zbox.min_x = x;
    } else if x > zbox.max_x {
      zbox.max_x = x;
    }
    if y <= zbox.min_y {
      zbox.min_y = y;
    } else if y > zbox.max_y {
      zbox.max_y = y;
    }"""), ["C21"])
V("ear-check-any", (EC, """    while cond(up_focus) && cond(down_focus) {
      if check(up_focus) || check(down_focus) {
        return false;
      }""", """    while cond(down_focus) && cond(up_focus) {
      if check(down_focus) {
        return false;
      }
      if check(up_focus) {
        return false;
      }"""), ["C21"])
ZH = "src/algorithms/zhash.rs"
V("hash-helper", [(ZH, """fn zhash_u32(w: u32) -> u64 {
  let w = w as u64; // & 0x00000000FFFFFFFF;
  let w = (w | w << 16) & 0x0000FFFF0000FFFF;
  let w = (w | w << 8) & 0x00FF00FF00FF00FF;
  let w = (w | w << 4) & 0x0F0F0F0F0F0F0F0F;
  let w = (w | w << 2) & 0x3333333333333333;
  (w | w << 1) & 0x5555555555555555
}""", """fn spread(w: u64, by: u32, mask: u64) -> u64 {
  (w ^ (w << by)) & mask
}
fn zhash_u32(w: u32) -> u64 {
  let mut w = u64::from(w);
  w = spread(w, 16, 0x0000FFFF0000FFFF);
  w = spread(w, 8, 0x00FF00FF00FF00FF);
  w = spread(w, 4, 0x0F0F0F0F0F0F0F0F);
  w = spread(w, 2, 0x3333333333333333);
  spread(w, 1, 0x5555555555555555)
}""")], ["C20", "C21"])
V("hash-loop", [(ZH, """  let w = (w | w << 16) & 0x0000FFFF0000FFFF;
  let w = (w | w << 8) & 0x00FF00FF00FF00FF;
  let w = (w | w << 4) & 0x0F0F0F0F0F0F0F0F;
  let w = (w | w << 2) & 0x3333333333333333;
  (w | w << 1) & 0x5555555555555555
}""", """  let mut w = w;
  for (by, mask) in [(16, 0x0000FFFF0000FFFF), (8, 0x00FF00FF00FF00FF), (4, 0x0F0F0F0F0F0F0F0F), (2, 0x3333333333333333), (1, 0x5555555555555555)] {
    w = (w | w << by) & mask;
  }
  w
}""")], ["C20", "C21"])
V("hash-sum", [(ZH, "  zhash_u32(a) | zhash_u32(b) << 1\n", "  zhash_u32(b) * 2 + zhash_u32(a)\n")], ["C20", "C21"])
V("hash-swap", [(ZH, "  zhash_u32(a) | zhash_u32(b) << 1\n", "  zhash_u32(a) << 1 | zhash_u32(b)\n"), (ZH, "  (zunhash_u32(w), zunhash_u32(w >> 1))", "  (zunhash_u32(w >> 1), zunhash_u32(w))")], ["C20", "C21"])
V("hash-signed-shift", [(ZH, "    let x = ((point.x_coord().wrapping_sub(min_x) as u64) >> x_r_shift) as u32;\n", "    let x = (point.x_coord().wrapping_sub(min_x) >> x_r_shift) as u32;\n")], ["C20", "C21"])
V("hash-one-shift", [(ZH, "    (*zbox.min_x, *zbox.min_y, x_r_shift, y_r_shift)\n  }\n  fn zhash_fn(key: Self::ZHashKey, point: &Point<Self>) -> u64 {\n    let (min_x, min_y, x_r_shift, y_r_shift) = key;\n    let x = ((*point.x_coord()", "    let shift = x_r_shift.max(y_r_shift);\n    (*zbox.min_x, *zbox.min_y, shift, shift)\n  }\n  fn zhash_fn(key: Self::ZHashKey, point: &Point<Self>) -> u64 {\n    let (min_x, min_y, x_r_shift, y_r_shift) = key;\n    let x = ((*point.x_coord()")], ["C20", "C21"])
V("hash-fast-path", [(ZH, "    let width = zbox.max_x - zbox.min_x;\n    let height = zbox.max_y - zbox.min_y;\n    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());\n", "    let width = zbox.max_x - zbox.min_x;\n    let height = zbox.max_y - zbox.min_y;\n    let x_r_shift = if width < 1 << 32 { 0 } else { 32 - width.leading_zeros() };\n")], ["C20", "C21"])
V("hash-bits", [(ZH, "    let x_r_shift = 32u32.saturating_sub(width.leading_zeros());\n    let y_r_shift = 32u32.saturating_sub(height.leading_zeros());\n    (*zbox.min_x, *zbox.min_y, x_r_shift, y_r_shift)\n  }\n  fn zhash_fn(key: Self::ZHashKey, point: &Point<Self>) -> u64 {\n    let (min_x, min_y, x_r_shift, y_r_shift) = key;\n    let x = ((point.x_coord()", "    let bits = |v: u64| u64::BITS - v.leading_zeros();\n    let x_r_shift = bits(width).max(32) - 32;\n    let y_r_shift = bits(height).saturating_sub(32);\n    (*zbox.min_x, *zbox.min_y, x_r_shift, y_r_shift)\n  }\n  fn zhash_fn(key: Self::ZHashKey, point: &Point<Self>) -> u64 {\n    let (min_x, min_y, x_r_shift, y_r_shift) = key;\n    let x = ((point.x_coord()")], ["C20", "C21"])
V("hash-f64-order", [(ZH, "    let x = ((point.x_coord() - min_x) / width * z_hash_max) as u32;\n", "    let scale = z_hash_max / width;\n    let x = (scale * (point.x_coord() - min_x)) as u32;\n")], ["C20", "C21"])
V("hash-abs-diff", [(ZH, "    let x = ((point.x_coord().wrapping_sub(min_x) as u64) >> x_r_shift) as u32;\n", "    let x = (point.x_coord().abs_diff(min_x) >> x_r_shift) as u32;\n")], ["C20", "C21"])
V("hash-i8-wide", [(ZH, "    let x = point.x_coord().abs_diff(min_x) as u32;\n", "    let x = (i32::from(*point.x_coord()) - i32::from(min_x)) as u32;\n")], ["C20", "C21"])
V("hash-f64-abs", [(ZH, "    let x = ((point.x_coord() - min_x) / width * z_hash_max) as u32;\n", "    let x = ((point.x_coord() - min_x).abs() / width * z_hash_max) as u32;\n")], ["C20"])

SET_F, UT = "src/data/intersection_set.rs", "src/utils.rs"
V("set-push-helper", [(SET_F, """    for &edge in &[isect.min, isect.max] {
      if let Some(loc) = self[edge] {
        assert_ne!(loc, idx);
        self.by_idx[loc][edge].prev = Some(idx);
        self.by_idx[idx][edge].next = Some(loc);
      }
      self[edge] = Some(idx);
    }
  }
""", """    self.enlist(isect.min, idx);
    self.enlist(isect.max, idx);
  }

  fn enlist(&mut self, edge: IndexEdge, idx: SparseIndex) {
    let head = self[edge].replace(idx);
    if let Some(older) = head {
      debug_assert_ne!(older, idx);
      self.by_idx[older][edge].prev = Some(idx);
    }
    self.by_idx[idx][edge].next = head;
  }
""")], ["C22", "C12", "C14", "C15", "C16"])
V("set-remove-inline", [(SET_F, """    while let Some(idx) = self[key] {
      self.remove(idx)
    }
""", """    loop {
      let idx = match self[key] {
        None => return,
        Some(idx) => idx,
      };
      self.remove(idx);
    }
"""), (SET_F, """      match edge.prev {
        Some(prev) => self.by_idx[prev][IndexEdge::from(edge)].next = edge.next,
        None => self[IndexEdge::from(edge)] = edge.next,
      }
      if let Some(next) = edge.next {
        self.by_idx[next][IndexEdge::from(edge)].prev = edge.prev;
      }
""", """      let key = IndexEdge::from(edge);
      if let Some(next) = edge.next {
        self.by_idx[next][key].prev = edge.prev;
      }
      if let Some(prev) = edge.prev {
        self.by_idx[prev][key].next = edge.next;
      } else {
        self[key] = edge.next;
      }
""")], ["C22"])
V("set-dense-pop", [(UT, """    let elt_dense_idx = self.dense_rev[elt];
    let last_sparse = *self.dense.last().unwrap();
    self.dense.swap_remove(elt_dense_idx);
    self.dense_rev[last_sparse] = elt_dense_idx;
""", """    let at = self.dense_rev[elt];
    let last = self.dense.pop().unwrap();
    if last != elt {
      self.dense[at] = last;
      self.dense_rev[last] = at;
    }
"""), (UT, """    let ret = self.arr[idx];
    self.arr[idx] = T::default();
    ret
""", """    std::mem::take(&mut self.arr[idx])
""")], ["C22"])
V("set-alloc-match", [(UT, """    let idx = self.free.pop().unwrap_or(self.arr.len());
    self.dense.push(idx);
    idx
""", """    let idx = match self.free.pop() {
      Some(slot) => slot,
      None => self.arr.len(),
    };
    self.dense.push(idx);
    idx
"""), (UT, """    self
      .dense_rev
      .resize(std::cmp::max(self.dense_rev.len(), elt + 1), usize::MAX);
    self.dense_rev[elt] = idx;
""", """    if self.dense_rev.len() <= elt {
      self.dense_rev.resize(elt + 1, 0);
    }
    self.dense_rev[elt] = idx;
""")], ["C22"])
V("set-dense-while", [(UT, """    self
      .dense_rev
      .resize(std::cmp::max(self.dense_rev.len(), elt + 1), usize::MAX);
    self.dense_rev[elt] = idx;
""", """    while self.dense_rev.len() <= elt {
      self.dense_rev.push(usize::MAX);
    }
    self.dense_rev[elt] = idx;
""")], ["C22"])
V("set-key-fn", [(SET_F, """    self
      .by_edge
      .index_mut(index.max.usize() + self.vertices * index.min.usize())
""", """    let slot = self.slot(index);
    &mut self.by_edge[slot]
"""), (SET_F, """    self
      .by_edge
      .index(index.max.usize() + self.vertices * index.min.usize())
""", """    &self.by_edge[self.slot(index)]
"""), (SET_F, """  pub fn iter(&self) -> impl Iterator<Item = IndexIntersection> + '_ {
    self.by_idx.iter().map(|&isect| isect.into())
  }
""", """  fn slot(&self, edge: IndexEdge) -> usize {
    edge.min.usize() * self.vertices + edge.max.usize()
  }

  pub fn iter(&self) -> impl Iterator<Item = IndexIntersection> + '_ {
    self
      .by_idx
      .iter()
      .copied()
      .map(IndexIntersection::from)
  }
""")], ["C22"])
V("set-random-get", [(UT, """    if self.dense.is_empty() {
      return None;
    }
    let idx = rng.gen_range(0..self.dense.len());
    Some(self.dense[idx])
""", """    match self.dense.len() {
      0 => None,
      n => self.dense.get(rng.gen_range(0..n)).copied(),
    }
"""), (UT, """    self.dense.iter().map(move |idx| self.arr.index(idx))
""", """    self.dense.dense.iter().map(move |&idx| &self.arr[idx])
"""), (SET_F, """    let idx = self.by_idx.random(rng)?;
    let isect = self.by_idx[idx];
    Some(IndexIntersection::new(
      IndexEdge::new(isect.edge0.vertex0, isect.edge0.vertex1),
      IndexEdge::new(isect.edge1.vertex0, isect.edge1.vertex1),
    ))
""", """    self
      .by_idx
      .random(rng)
      .map(|idx| IndexIntersection::from(self.by_idx[idx]))
""")], ["C22", "C14"])
TWO, STAR_F, MONO = "src/algorithms/polygonization/two_opt.rs", "src/algorithms/polygonization/star.rs", "src/algorithms/polygonization/monotone.rs"
V("two-opt-edges-outer", [(TWO, """  for &edge in inserted_edges.iter() {
    for e1 in edges(poly) {
      if e1 != edge {
        if let Some(isect) = intersects(poly, e1, edge) {
          // eprintln!("Inserting new intersection: {:?} {:?}", e1, edge);
          set.push(isect)
        }
      }
    }
  }
""", """  for e1 in edges(poly) {
    for edge in inserted_edges.iter().copied() {
      if e1 == edge {
        continue;
      }
      match intersects(poly, edge, e1) {
        Some(isect) => set.push(isect),
        None => {}
      }
    }
  }
""")], ["C23"])
V("two-opt-reverse-other", [(TWO, """    let p1 = da.next().position;
    let p2 = db.position;""", """    let p1 = db.next().position;
    let p2 = da.position;"""), (TWO, """    inserted_edges = vec![
      IndexEdge::new(da.point_id(), db.point_id()),
      IndexEdge::new(da.next().point_id(), db.next().point_id()),
    ];
""", """    let (a_next, b_next) = (da.next(), db.next());
    let first = IndexEdge::new(b_next.point_id(), a_next.point_id());
    inserted_edges = vec![first, IndexEdge::new(db.point_id(), da.point_id())];
""")], ["C23"])
V("two-opt-endpoint", [(TWO, """  if a == b || a == c {
    EndPoint::Exclusive(t)
  } else {
    EndPoint::Inclusive(t)
  }""", """  let shared = [b, c].contains(&a);
  match shared {
    false => EndPoint::Inclusive(t),
    true => EndPoint::Exclusive(t),
  }"""), (TWO, """  e1.intersect(e2)?; // Returns Some(...) if there exist a point shared by both line segments.
  Some(IndexIntersection::new(a, b))""", """  if e2.intersect(e1).is_none() {
    return None;
  }
  Some(IndexIntersection::new(b, a))""")], ["C23"])
V("two-opt-loop", [(TWO, """  while let Some(isect) = isects.random(rng) {
    untangle(poly, &mut isects, isect)
  }
  poly.ensure_ccw()?;
  // poly.validate()?;
  Ok(())""", """  loop {
    match isects.random(rng) {
      Some(isect) => untangle(poly, &mut isects, isect),
      None => break,
    }
  }
  poly.ensure_ccw()"""), (TWO, """      if e1 < e2 {
        if let Some(isect) = intersects(poly, e1, e2) {
          // eprintln""", """      if e2 < e1 {
        if let Some(isect) = intersects(poly, e2, e1) {
          // eprintln"""), (TWO, """  if poly.iter_boundary().all(|pt| pt.is_colinear()) {""", """  if !poly.iter_boundary().any(|pt| !pt.is_colinear()) {""")], ["C23"])
V("two-opt-kinks", [(TWO, """      if elt.orientation() != Orientation::CoLinear || !inner_segment.contains(elt.point()) {""", """      let straight = elt.is_colinear() && inner_segment.contains(elt.point());
      if !straight {"""), (TWO, """    let mut mergable = None;
    'outer: for""", """    let mut mergable: Option<(Cursor<'_, T>, Cursor<'_, T>)> = None;
    'outer: for"""), (TWO, """      for &kink in kinks.iter() {
        if segment.contains(kink.point()) {
          mergable = Some((kink, edge));
          break 'outer;
        }
      }""", """      if let Some(kink) = kinks.iter().find(|kink| segment.contains(kink.point())) {
        mergable = Some((*kink, edge));
        break 'outer;
      }""")], ["C23"])
V("two-opt-parallel", [(TWO, """  Point::orient(a1, a2, b1).is_colinear() && Point::orient(a1, a2, b2).is_colinear()""", """  [b1, b2]
    .iter()
    .all(|pt| Orientation::CoLinear == Point::orient(a1, a2, pt))""")], ["C23"])
V("star-steps", [(STAR_F, """  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
  // FIXME: Handle case where all points are colinear.
  // FIXME: Handle duplicate points.
  Polygon::new(vertices)""", """  let around = |a: &Point<T>, b: &Point<T>| point.ccw_cmp_around(b, a).reverse();
  vertices.sort_by(around);
  let polygon = Polygon::new(vertices)?;
  Ok(polygon)""")] if "FIXME: Handle case" in open("/repo/" + STAR_F).read() else [(STAR_F, """  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
  Polygon::new(vertices)""", """  let around = |a: &Point<T>, b: &Point<T>| point.ccw_cmp_around(b, a).reverse();
  vertices.sort_by(around);
  let polygon = Polygon::new(vertices)?;
  Ok(polygon)""")], ["C23"])
V("mono-rev-iter", [(MONO, """  while let Some(curr) = points.pop() {
    match""", """  for curr in points.into_iter().rev() {
    match""")], ["C23"])
V("mono-forward", [(MONO, """  while let Some(curr) = points.pop() {
    match Orientation::new(&min_point, &max_point, &curr) {
      Orientation::ClockWise => polygon_points.push_front(curr),
      _ => polygon_points.push_back(curr),
    }
  }""", """  for curr in points {
    if Orientation::new(&min_point, &max_point, &curr) == Orientation::ClockWise {
      polygon_points.push_back(curr);
    } else {
      polygon_points.push_front(curr);
    }
  }""")], ["C23"])
V("mono-test-all", [(MONO, """  for pt in min_cursor.to(Excluded(max_cursor)) {
    if direction.cmp_along(&pt, &pt.next()) == Ordering::Greater {
      return false;
    }
  }
""", """  let rising = |pt: Cursor<'_, T>| direction.cmp_along(&pt.next(), &pt) != Ordering::Less;
  if !min_cursor.to(Excluded(max_cursor)).all(rising) {
    return false;
  }
""")], ["C23"])

# ---- C26 / C04
EQ_OLD = """    for pos in self.iter_boundary() {
      let iter = CursorIter {
        cursor_head: pos,
        cursor_tail: pos.prev(),
        exhausted: false,
      };
      if iter == other.iter_boundary() {
        return true;
      }
    }
    false
"""
V("equals-any", [("src/data/polygon.rs", EQ_OLD, """    self
      .iter_boundary()
      .any(|pos| pos.to(Bound::Unbounded) == other.iter_boundary())
""")], ["C26", "C11"])
V("equals-other", [("src/data/polygon.rs", EQ_OLD, """    let mut found = false;
    for pos in other.iter_boundary() {
      if self.iter_boundary() == pos.to(Bound::Included(pos.prev())) {
        found = true;
        break;
      }
    }
    found
""")], ["C26"])
WALK_OLD = """    for (a, b) in self.clone().zip(other.clone()) {
      if a.point() != b.point() {
        return false;
      }
    }
    true
"""
V("walk-all", [("src/data/polygon/iter.rs", WALK_OLD, "    self.clone().zip(other.clone()).all(|(a, b)| a.point() == b.point())\n")], ["C26"])
V("walk-next", [("src/data/polygon/iter.rs", "    if self.len() != other.len() {\n      return false;\n    }\n" + WALK_OLD, """    let (mut left, mut right) = (self.clone(), other.clone());
    loop {
      match (left.next(), right.next()) {
        (Some(a), Some(b)) if a.point() == b.point() => continue,
        (None, None) => return true,
        _ => return false,
      }
    }
""")], ["C26"])
EAR_OLD = """    if trig.orientation() == Orientation::CounterClockWise {
      for pt in self.next().next().to(Excluded(self.prev())) {
        if trig.locate(pt.point()) != PointLocation::Outside {
          return false;
        }
      }
      true
    } else {
      false
    }
"""
V("ear-guard", [("src/data/polygon.rs", EAR_OLD, """    if self.orientation() != Orientation::CounterClockWise {
      return false;
    }
    let last = self.prev();
    let mut others = self.next().next().to(Excluded(last));
    others.all(|other| trig.locate(&other) == PointLocation::Outside)
""")], ["C26"])
V("ear-while", [("src/data/polygon.rs", EAR_OLD, """    if trig.orientation() != Orientation::CounterClockWise {
      return false;
    }
    let stop = self.prev();
    let mut at = self.next().next();
    while at != stop {
      match trig.locate(at.point()) {
        PointLocation::Outside => at.move_next(),
        _ => return false,
      }
    }
    true
""")], ["C26"])
V("sort-around-cmp", [("src/data/vector.rs", """      Orientation::ccw_cmp_around_with(
        &Vector([T::from_constant(1), T::from_constant(0)]),
        &origin,
        &a.0,
        &b.0,
      )
    })
    // L""", """      let zero = Vector(origin.clone());
      zero.ccw_cmp_around(a, b)
    })
    // L""")], ["C04"])
V("colinear-loop", [("src/data/point.rs", """    match pts.iter().find(|&pt| pt != &pts[0]) {
      None => true,
      Some(other) => pts
        .iter()
        .all(|pt| Point::orient(&pts[0], other, pt).is_colinear()),
    }
""", """    let first = &pts[0];
    let Some(other) = pts.iter().find(|&pt| pt != first) else {
      return true;
    };
    for pt in pts {
      if Point::orient(first, other, pt) != Orientation::CoLinear {
        return false;
      }
    }
    true
""")], ["C26"])
# ---------------------------------------------------------------------------- predicates, segments, lines, triangles
LIB = "src/lib.rs"
OR = "src/orientation.rs"
SEG = "src/data/line_segment.rs"
LN = "src/data/line.rs"
TRI = "src/data/triangle.rs"
V("fp-dist-checked", [(LIB, """        let (pq_dist_squared, pq_overflow) = (pq_x * pq_x).overflowing_add(pq_y * pq_y);
""", """        let pq_sum = (pq_x * pq_x).checked_add(pq_y * pq_y);
"""), (LIB, """        let (pr_dist_squared, pr_overflow) = (pr_x * pr_x).overflowing_add(pr_y * pr_y);
        match (pq_overflow, pr_overflow) {
          (true, false) => Ordering::Greater,
          (false, true) => Ordering::Less,
          _ => pq_dist_squared.cmp(&pr_dist_squared),
        }""", """        let pr_sum = (pr_x * pr_x).checked_add(pr_y * pr_y);
        let pq_low = (pq_x * pq_x).wrapping_add(pq_y * pq_y);
        let pr_low = (pr_x * pr_x).wrapping_add(pr_y * pr_y);
        match (pq_sum.is_none(), pr_sum.is_none()) {
          (true, false) => Ordering::Greater,
          (false, true) => Ordering::Less,
          _ => pq_low.cmp(&pr_low),
        }""")], ["C01", "C02", "C03"])
V("fp-slope-sign", [(LIB, """        let (ux, ux_neg) = diff(q[0], p[0]);
        let (vy, vy_neg) = diff(r[1], p[1]);
        let ux_vy_neg = ux_neg.bitxor(vy_neg) && ux != 0 && vy != 0;
        let (uy, uy_neg) = diff(q[1], p[1]);
        let (vx, vx_neg) = diff(r[0], p[0]);
        let uy_vx_neg = uy_neg.bitxor(vx_neg) && uy != 0 && vx != 0;
        match (ux_vy_neg, uy_vx_neg) {""", """        let (uy, uy_neg) = diff(q[1], p[1]);
        let (vx, vx_neg) = diff(r[0], p[0]);
        let (ux, ux_neg) = diff(q[0], p[0]);
        let (vy, vy_neg) = diff(r[1], p[1]);
        let negative = |a: $ulong, sa: bool, b: $ulong, sb: bool| sa != sb && a != 0 && b != 0;
        match (negative(ux, ux_neg, vy, vy_neg), negative(uy, uy_neg, vx, vx_neg)) {""")], ["C01", "C02", "C03"])
V("fp-slope-if", [(LIB, """        let (ux, ux_neg) = diff(q[0], p[0]);
        let (vy, vy_neg) = diff(r[1], p[1]);
        let ux_vy_neg = ux_neg.bitxor(vy_neg) && ux != 0 && vy != 0;
        let (uy, uy_neg) = diff(q[1], p[1]);
        let (vx, vx_neg) = diff(r[0], p[0]);
        let uy_vx_neg = uy_neg.bitxor(vx_neg) && uy != 0 && vx != 0;
        match (ux_vy_neg, uy_vx_neg) {
          (true, false) => Ordering::Less,
          (false, true) => Ordering::Greater,
          (true, true) => (uy * vx).cmp(&(ux * vy)),
          (false, false) => (ux * vy).cmp(&(uy * vx)),
        }""", """        let (ux, ux_neg) = diff(q[0], p[0]);
        let (vy, vy_neg) = diff(r[1], p[1]);
        let (uy, uy_neg) = diff(q[1], p[1]);
        let (vx, vx_neg) = diff(r[0], p[0]);
        let left = ux * vy;
        let right = uy * vx;
        let left_neg = ux_neg != vy_neg && left != 0;
        let right_neg = uy_neg != vx_neg && right != 0;
        if left_neg != right_neg {
          if left_neg {
            Ordering::Less
          } else {
            Ordering::Greater
          }
        } else if left_neg {
          right.cmp(&left)
        } else {
          left.cmp(&right)
        }""")], ["C01", "C02", "C03"])
V("big-slope-swap", [(LIB, """        let slope1 = (&r[1] - &q[1]) * (&q[0] - &p[0]);
        let slope2 = (&q[1] - &p[1]) * (&r[0] - &q[0]);
        slope1.cmp(&slope2)""", """        let run = (&q[0] - &p[0], &r[0] - &p[0]);
        let rise = (&q[1] - &p[1], &r[1] - &p[1]);
        (run.0 * rise.1).cmp(&(rise.0 * run.1))""")], ["C01", "C02"])
V("float-slope-partial", [(LIB, """        if orient > 0.0 {
          Ordering::Greater
        } else if orient < 0.0 {
          Ordering::Less
        } else {
          Ordering::Equal
        }
      }
      // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
      // roughly 100x slower than necessary.
      fn cmp_vector_slope(vector: &[Self;2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
        PolygonScalar::cmp_vector_slope(
          &[float_to_rational(vector[0].into_inner())""", """        match (orient > 0.0, orient < 0.0) {
          (true, _) => Ordering::Greater,
          (_, true) => Ordering::Less,
          _ => Ordering::Equal,
        }
      }
      // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
      // roughly 100x slower than necessary.
      fn cmp_vector_slope(vector: &[Self;2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
        PolygonScalar::cmp_vector_slope(
          &[float_to_rational(vector[0].into_inner())""")], ["C01", "C02", "C03"])
V("orient-from-ord", [(OR, """    // raw_arr_turn(p, q, r)
    match T::cmp_slope(p1, p2, p3) {
      Ordering::Less => Orientation::ClockWise,
      Ordering::Equal => Orientation::CoLinear,
      Ordering::Greater => Orientation::CounterClockWise,
    }
  }
""", """    Orientation::from_slope(T::cmp_slope(p1, p2, p3))
  }

  fn from_slope(order: Ordering) -> Orientation {
    if order.is_lt() {
      Orientation::ClockWise
    } else if order.is_gt() {
      Orientation::CounterClockWise
    } else {
      Orientation::CoLinear
    }
  }
""")], ["C01", "C02", "C03", "C04", "C08"])
V("around-nested", [(OR, """    match (aq, ar) {
      // Easy cases: Q and R are on either side of the line p->z:
      (CounterClockWise, ClockWise) => Ordering::Less,
      (ClockWise, CounterClockWise) => Ordering::Greater,
""", """    if aq == ar && aq != CoLinear {
      return cmp();
    }
    match (aq, ar) {
      // Easy cases: Q and R are on either side of the line p->z:
      (CounterClockWise, ClockWise) => Ordering::Less,
      (ClockWise, CounterClockWise) => Ordering::Greater,
"""), (OR, """      (CounterClockWise, CounterClockWise) => cmp(),
      (ClockWise, ClockWise) => cmp(),
""", """      (CounterClockWise, CounterClockWise) | (ClockWise, ClockWise) => unreachable!(),
"""), (OR, """        (true, true) => Ordering::Equal,
        (false, false) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
      },""", """        (q, r) => r.cmp(&q),
      },""")], ["C04"])
V("around-closure", [(OR, """    let on_zero = |d: &[T; 2]| match Orientation::along_perp_vector(p1, vector, d) {
      CounterClockWise => false,
      ClockWise => true,
      CoLinear => true,
    };""", """    let on_zero = |d: &[T; 2]| !Orientation::along_perp_vector(p1, vector, d).is_ccw();"""),
 (OR, """        if on_zero(p2) {
          Ordering::Less
        } else {
          Ordering::Greater
        }
      }""", """        match on_zero(p2) {
          false => Ordering::Greater,
          true => Ordering::Less,
        }
      }""")], ["C04"])
V("sos-branches", [(OR, """    let ab = a < b;
    let ac = a < c;
    let cb = c < b;
    if ab ^ ac ^ cb {
      SoS::ClockWise
    } else {
      SoS::CounterClockWise
    }
""", """    let inversions = [a > b, a > c, b > c].iter().filter(|&&x| x).count();
    if inversions % 2 == 1 {
      SoS::ClockWise
    } else {
      SoS::CounterClockWise
    }
""")], ["C05"])
V("sos-sorted", [(OR, """    let ab = a < b;
    let ac = a < c;
    let cb = c < b;
    if ab ^ ac ^ cb {
      SoS::ClockWise
    } else {
      SoS::CounterClockWise
    }
""", """    if a < b {
      if a < c && c < b {
        SoS::ClockWise
      } else {
        SoS::CounterClockWise
      }
    } else if b < c && c < a {
      SoS::CounterClockWise
    } else {
      SoS::ClockWise
    }
""")], ["C05"])
V("seg-between", [(SEG, """  let left;
  let right;
  if a.inner().total_cmp(b.inner()).is_lt() {
    left = a;
    right = b;
  } else {
    left = b;
    right = a;
  }
  let lhs = match left {
    Exclusive(l) => l.total_cmp(inner).is_lt(),
    Inclusive(l) => l.total_cmp(inner).is_le(),
  };
  let rhs = match right {
    Exclusive(r) => inner.total_cmp(r).is_lt(),
    Inclusive(r) => inner.total_cmp(r).is_le(),
  };
  lhs && rhs
""", """  let (left, right) = match a.inner().total_cmp(b.inner()) {
    Ordering::Less => (a, b),
    _ => (b, a),
  };
  let above = |e: EndPoint<&T>, o: Ordering| o == Ordering::Less || (o == Ordering::Equal && e.is_inclusive());
  let low = left.inner().total_cmp(inner);
  if !above(left, low) {
    return false;
  }
  let high = inner.total_cmp(right.inner());
  above(right, high)
""")], ["C06"])
V("seg-cross-helper", [(SEG, """    } else if l1_to_b1 == CoLinear {
      // dbg!(other.0 >= self.0, other.0 <= self.1, other.0.is_closed());
      if other.min.is_inclusive()
        && inner_between(other.min.inner(), self.min.as_ref(), self.max.as_ref())
      {
        Some(ILineSegment::Crossing)
      } else {
        None
      }
    } else if l1_to_b2 == CoLinear {
      if other.max.is_inclusive()
        && inner_between(other.max.inner(), self.min.as_ref(), self.max.as_ref())
      {
        Some(ILineSegment::Crossing)
      } else {
        None
      }
    } else if l2_to_a1""", """    } else if l1_to_b1 == CoLinear || l1_to_b2 == CoLinear {
      let end = if l1_to_b1 == CoLinear { other.min } else { other.max };
      if end.is_exclusive() {
        return None;
      }
      inner_between(end.inner(), self.min, self.max).then(|| ILineSegment::Crossing)
    } else if l2_to_a1""")], ["C06"])
V("seg-contains-order", [(SEG, """    Point::orient(self.min.inner(), self.max.inner(), pt).is_colinear()
      && inner_between(pt, self.min, self.max)""", """    if !inner_between(pt, self.min, self.max) {
      return false;
    }
    Point::orient(self.max.inner(), self.min.inner(), pt) == Orientation::CoLinear""")], ["C06", "C08"])
V("seg-overlap-match", [(SEG, """      if order == Ordering::Less
        || (order == Ordering::Equal && c_max.is_inclusive() && c_min.is_inclusive())
      {
        Some(ILineSegment::Overlap(LineSegmentView {
          min: c_min,
          max: c_max,
        }))
      } else {
        None
      }""", """      let nonempty = match order {
        Ordering::Less => true,
        Ordering::Equal => !(c_max.is_exclusive() || c_min.is_exclusive()),
        Ordering::Greater => false,
      };
      if !nonempty {
        return None;
      }
      let (min, max) = (c_min, c_max);
      Some(ILineSegment::Overlap(LineSegmentView { min, max }))""")], ["C06", "C09"])
V("ray-side-fn", [(LN, """      (CoLinear, _) => {
        let l2_to_a1 = Point::orient(b1, b2, origin);
        if l1_to_b2 == l2_to_a1 {
          Some(Crossing(l1_to_b2))
        } else {
          None
        }
      }""", """      (CoLinear, side) => Some(Point::orient(b1, b2, origin))
        .filter(|o| *o == side)
        .map(Crossing),""")], ["C07", "C08"])
V("ray-same-side-first", [(LN, """    match (l1_to_b1, l1_to_b2) {
      // l1 and l2 are parallel and therefore cannot cross.
      (CoLinear, CoLinear) => None,""", """    if l1_to_b1 == l1_to_b2 {
      return None;
    }
    match (l1_to_b1, l1_to_b2) {
      // l1 and l2 are parallel and therefore cannot cross.
      (CoLinear, CoLinear) => None,""")], ["C07", "C08"])
V("line-sos-direction", [(LN, """    let l1_to_b1;
    let l1_to_b2;
    match &self.line.direction {
      Direction::Vector(direction) => {
        l1_to_b1 =
          Point::orient_along_vector(origin, direction, b1).then(Orientation::CounterClockWise);
        l1_to_b2 =
          Point::orient_along_vector(origin, direction, b2).then(Orientation::CounterClockWise);
      }
      Direction::Through(through) => {
        l1_to_b1 = Point::orient(origin, through, b1).then(Orientation::CounterClockWise);
        l1_to_b2 = Point::orient(origin, through, b2).then(Orientation::CounterClockWise);
      }
    }
    // If b1 and b2 are on opposite sides of the line then there's an intersection.
    if l1_to_b1 == l1_to_b2.reverse() {
      Some(ILineLineSegmentSoS::Crossing)
    } else {
      None
    }""", """    let right_of = |pt| Point::orient_along_direction(origin, self.line.direction, pt).is_cw();
    // If b1 and b2 are on opposite sides of the line then there's an intersection.
    if right_of(b1) != right_of(b2) {
      Some(ILineLineSegmentSoS::Crossing)
    } else {
      None
    }""")], ["C07"])
V("line-point-det", [(LN, """    let denom: T = (x1.clone() - x2.clone()) * (y3.clone() - y4.clone())
      - (y1.clone() - y2.clone()) * (x3.clone() - x4.clone());
    if denom == T::from_constant(0) {
      return None;
    }
    let part_a = x1.clone() * y2.clone() - y1.clone() * x2.clone();
    let part_b = x3.clone() * y4.clone() - y3.clone() * x4.clone();
    let x_num = part_a.clone() * (x3 - x4) - (x1 - x2) * part_b.clone();
    let y_num = part_a * (y3 - y4) - (y1 - y2) * part_b;
    Some(Point::new([x_num / denom.clone(), y_num / denom]))""", """    let det = |a: T, b: T, c: T, d: T| a * d - b * c;
    let (dx1, dy1) = (x1.clone() - x2.clone(), y1.clone() - y2.clone());
    let (dx2, dy2) = (x3.clone() - x4.clone(), y3.clone() - y4.clone());
    let denom: T = det(dx1.clone(), dy1.clone(), dx2.clone(), dy2.clone());
    if denom != T::from_constant(0) {
      let one = det(x1, y1, x2, y2);
      let two = det(x3, y3, x4, y4);
      let x = det(one.clone(), dx1, two.clone(), dx2) / denom.clone();
      let y = det(one, dy1, two, dy2) / denom;
      Some(Point::new([x, y]))
    } else {
      None
    }""")], ["C17", "C07"])
V("tri-locate-fold", [(TRI, """    let ab = Point::orient(a, b, pt);
    let bc = Point::orient(b, c, pt);
    let ca = Point::orient(c, a, pt);
    if ab == ClockWise || bc == ClockWise || ca == ClockWise {
      PointLocation::Outside
    } else if ab == CoLinear || bc == CoLinear || ca == CoLinear {
      PointLocation::OnBoundary
    } else {
      PointLocation::Inside
    }""", """    let mut location = PointLocation::Inside;
    for (p, q) in [(a, b), (b, c), (c, a)] {
      match Point::orient(p, q, pt) {
        ClockWise => return PointLocation::Outside,
        CoLinear => location = PointLocation::OnBoundary,
        CounterClockWise => (),
      }
    }
    location""")], ["C08", "C21"])
V("tri-bbox-loop", [(TRI, """    let min_x = self.0[0]
      .x_coord()
      .total_min(self.0[1].x_coord())
      .total_min(self.0[2].x_coord())
      .clone();
    let max_x = self.0[0]
      .x_coord()
      .total_max(self.0[1].x_coord())
      .total_max(self.0[2].x_coord())
      .clone();""", """    let [a, b, c] = self.0;
    let (lo, hi) = if a.x_coord().total_cmp(b.x_coord()).is_le() {
      (a.x_coord(), b.x_coord())
    } else {
      (b.x_coord(), a.x_coord())
    };
    let min_x = lo.total_min(c.x_coord()).clone();
    let max_x = hi.total_max(c.x_coord()).clone();""")], ["C18", "C21"])
V("tri-area-shoelace", [(TRI, """    ax.clone() * by.clone() - bx.clone() * ay.clone() + bx * cy.clone() - cx.clone() * by + cx * ay
      - ax * cy""", """    (bx - ax.clone()) * (cy - ay.clone()) - (cx - ax) * (by - ay)""")], ["C18"])
V("tri-ccw-if", [(TRI, """    match Point::orient(&pts[0], &pts[1], &pts[2]) {
      Orientation::CounterClockWise => Triangle(pts),
      Orientation::ClockWise => {
        pts.swap(0, 2);
        Triangle(pts)
      }
      Orientation::CoLinear => panic!("Cannot orient colinear points."),
    }""", """    let turn = Point::orient(&pts[0], &pts[1], &pts[2]);
    assert!(!turn.is_colinear(), "Cannot orient colinear points.");
    if turn.is_cw() {
      pts.swap(1, 2);
    }
    Triangle(pts)""")], ["C10", "C18"])
# ---------------------------------------------------------------------------- fast paths that change nothing
V("fast-locate-box", [(PL, "    let direction = Vector::unit_right();", """    let (low, high) = self.bounding_box();
    if origin.x_coord() < low.x_coord() || origin.y_coord() > high.y_coord() {
      return PointLocation::Outside;
    }
    let direction = Vector::unit_right();""")], ["C08"])
V("fast-locate-xor", [(PL, "          intersections += 1;", "          intersections ^= 1;")], ["C08"])
V("fast-orient-three", [(PL, "    match self.iter_boundary().min_by(|a, b| a.point().cmp(b.point())) {", """    if self.rings[0].len() == 3 {
      return self.cursor(self.rings[0][0]).orientation();
    }
    match self.iter_boundary().min_by(|a, b| a.point().cmp(b.point())) {""")], ["C18"])
V("fast-mono-three", [("src/algorithms/polygonization/monotone.rs", "  assert_eq!(poly.rings.len(), 1);", """  assert_eq!(poly.rings.len(), 1);
  if poly.rings[0].len() == 3 {
    return true;
  }""")], ["C23", "C26"])
V("fast-melkman-three", [("src/algorithms/convex_hull/melkman.rs", "  let mut last_idx = 0;", """  if polygon.iter_boundary().len() == 3 {
    return PolygonConvex::new_unchecked(polygon.clone());
  }
  let mut last_idx = 0;""")], ["C24"])
V("fast-graham-three", [("src/algorithms/convex_hull/graham_scan.rs", "  let smallest = &smallest_point(&pts)?;", """  if pts.len() == 3 && Point::orient(&pts[0], &pts[1], &pts[2]).is_ccw() {
    return Ok(PolygonConvex::new_unchecked(Polygon::new_unchecked(pts)));
  }
  let smallest = &smallest_point(&pts)?;""")], ["C24"])
V("fast-two-opt-valid", [("src/algorithms/polygonization/two_opt.rs", "  let mut poly = Polygon::new_unchecked(pts);", """  if let Ok(valid) = Polygon::new(pts.clone()) {
    return Ok(valid);
  }
  let mut poly = Polygon::new_unchecked(pts);""")], ["C22", "C23"])
V("fast-ear-none-left", [("src/algorithms/triangulation/earclip.rs", "    let mut focus = c.next();\n    while focus != a {\n      if trig.locate", """    let mut focus = c.next();
    if focus == a {
      return true;
    }
    while focus != a {
      if trig.locate""")], ["C21"])
V("pairs-clamped", [("src/algorithms/intersection/naive.rs", "(0..n).flat_map(move |a| (0..a)", "(0..n).flat_map(move |a| (0..a.min(n))")], ["C09"])
