//! The bindings of src/wasm, natively: the check strips their `#[wasm_bindgen]` attributes and the target condition.
use super::*;
use rcgal::kernel::util_enum::Segment2Type;
use rcgal::wasm::algorithm::{
    convex_hull::convex_hull_2 as wh, intersection::segment_2_segment_2 as wi,
    intersection::sweep_segment_2_intersection as ws, location as wl, projection as wp,
    triangulation::earcut_2 as we,
};
use rcgal::wasm::kernel as wk;

macro_rules! wrap {
    ($($t:ty, $n:expr);*) => { $(impl In for $t { fn w(self) -> V { V::W($n, Rc::new(RefCell::new(self))) } })* };
}
wrap!(wk::point_2::Point2, "wasm::Point2"; wk::vector_2::Vector2, "wasm::Vector2"; wk::line_segment_2::LineSegment2, "wasm::LineSegment2";
      wk::circle_segment_2::CircleSegment2, "wasm::CircleSegment2"; wk::arc_segment_2::ArcSegment2, "wasm::ArcSegment2";
      wk::triangle_2::Triangle2, "wasm::Triangle2"; wk::polygon_2::Polygon2, "wasm::Polygon2"; wk::segment_2::Segment2, "wasm::Segment2";
      wh::ConvexHull2, "wasm::ConvexHull2"; ws::SweepSegment2Intersection, "wasm::SweepSegment2Intersection";
      we::Triangle2Indices, "wasm::Triangle2Indices");

fn get<T: 'static>(v: &V) -> &RefCell<T> {
    match v {
        V::W(_, x) => x.downcast_ref::<RefCell<T>>().unwrap_or_else(|| panic!("REPLAYTYPE")),
        _ => panic!("REPLAYTYPE"),
    }
}
type P = wk::point_2::Point2;
type Ve = wk::vector_2::Vector2;
type Ls = wk::line_segment_2::LineSegment2;
type Ci = wk::circle_segment_2::CircleSegment2;
type Ar = wk::arc_segment_2::ArcSegment2;
type Tr = wk::triangle_2::Triangle2;
type Po = wk::polygon_2::Polygon2;
type Sg = wk::segment_2::Segment2;

fn pt(v: &V) -> P {
    P { kernel_point_2: get::<P>(v).borrow().kernel_point_2 }
}
fn pts(v: &V) -> Vec<P> {
    match v {
        V::L(x) => x.iter().map(pt).collect(),
        _ => panic!("REPLAYTYPE"),
    }
}
fn opt<T: Copy + 'static>(v: &V) -> Option<T> {
    match v {
        V::None => None,
        x => Some(*get::<T>(x).borrow()),
    }
}
fn kind(v: &V) -> Segment2Type {
    match v {
        V::E(_, s) if s == "LineSegment2" => Segment2Type::LineSegment2,
        V::E(_, s) if s == "CircleSegment2" => Segment2Type::CircleSegment2,
        V::E(_, s) if s == "ArcSegment2" => Segment2Type::ArcSegment2,
        _ => panic!("REPLAYTYPE"),
    }
}

pub fn dispatch(name: &str, a: &A) -> V {
    let v = &a.0;
    macro_rules! b {
        ($t:ty, $i:expr) => {
            get::<$t>(&v[$i]).borrow()
        };
    }
    match name.rsplit("algorithm::").next().unwrap() {
        "Point2::new" => P::new(a.f(0), a.f(1)).w(),
        "Point2::x" => b!(P, 0).x().w(),
        "Point2::y" => b!(P, 0).y().w(),
        "Point2::equals" => b!(P, 0).equals(&b!(P, 1)).w(),
        "Point2::get_vector" => b!(P, 0).get_vector().w(),
        "Point2::distance" => b!(P, 0).distance(&b!(P, 1)).w(),
        "Point2::turn" => en("TurnDirection", P::turn(&b!(P, 0), &b!(P, 1), &b!(P, 2))),
        "Vector2::new" => Ve::new(a.f(0), a.f(1)).w(),
        "Vector2::x" => b!(Ve, 0).x().w(),
        "Vector2::y" => b!(Ve, 0).y().w(),
        "Vector2::length" => b!(Ve, 0).length().w(),
        "Vector2::normalize" => b!(Ve, 0).normalize().w(),
        "Vector2::dot" => b!(Ve, 0).dot(&b!(Ve, 1)).w(),
        "Vector2::cross" => b!(Ve, 0).cross(&b!(Ve, 1)).w(),
        "Vector2::radian_to" => b!(Ve, 0).radian_to(&b!(Ve, 1)).w(),
        "LineSegment2::new" => Ls::new(pt(&v[0]), pt(&v[1])).w(),
        "LineSegment2::source" => b!(Ls, 0).source().w(),
        "LineSegment2::target" => b!(Ls, 0).target().w(),
        "LineSegment2::segment_type" => en("Segment2Type", b!(Ls, 0).segment_type()),
        "CircleSegment2::new" => Ci::new(pt(&v[0]), a.f(1)).w(),
        "CircleSegment2::center" => b!(Ci, 0).center().w(),
        "CircleSegment2::radius" => b!(Ci, 0).radius().w(),
        "CircleSegment2::segment_type" => en("Segment2Type", b!(Ci, 0).segment_type()),
        "ArcSegment2::new" => Ar::new(*b!(Ci, 0), a.f(1), a.f(2)).w(),
        "ArcSegment2::source" => b!(Ar, 0).source().w(),
        "ArcSegment2::target" => b!(Ar, 0).target().w(),
        "ArcSegment2::center" => b!(Ar, 0).center().w(),
        "ArcSegment2::radius" => b!(Ar, 0).radius().w(),
        "ArcSegment2::source_radian" => b!(Ar, 0).source_radian().w(),
        "ArcSegment2::target_radian" => b!(Ar, 0).target_radian().w(),
        "ArcSegment2::segment_type" => en("Segment2Type", b!(Ar, 0).segment_type()),
        "Triangle2::new" => Tr::new(pt(&v[0]), pt(&v[1]), pt(&v[2])).w(),
        "Triangle2::a" => b!(Tr, 0).a().w(),
        "Triangle2::b" => b!(Tr, 0).b().w(),
        "Triangle2::c" => b!(Tr, 0).c().w(),
        "Triangle2::vertices" => b!(Tr, 0).vertices().w(),
        "Triangle2::edges" => b!(Tr, 0).edges().w(),
        "Triangle2::orientation" => en("Orientation", b!(Tr, 0).orientation()),
        "Triangle2::reverse_orientation" => get::<Tr>(&v[0]).borrow_mut().reverse_orientation().w(),
        "Triangle2::area" => b!(Tr, 0).area().w(),
        "Polygon2::new" => Po::new(pts(&v[0])).w(),
        "Polygon2::vertices" => b!(Po, 0).vertices().w(),
        "Polygon2::edges" => b!(Po, 0).edges().w(),
        "Polygon2::area" => b!(Po, 0).area().w(),
        "Polygon2::is_simple" => b!(Po, 0).is_simple().w(),
        "Polygon2::is_convex" => b!(Po, 0).is_convex().w(),
        "Segment2::new" => Sg::new(kind(&v[0]), opt::<Ls>(&v[1]), opt::<Ci>(&v[2]), opt::<Ar>(&v[3])).w(),
        "ConvexHull2::new" => wh::ConvexHull2::new(pts(&v[0])).w(),
        "ConvexHull2::convex_hull" => get::<wh::ConvexHull2>(&v[0]).borrow_mut().convex_hull().w(),
        "SweepSegment2Intersection::new" => ws::SweepSegment2Intersection::new().w(),
        "SweepSegment2Intersection::push_segment" => get::<ws::SweepSegment2Intersection>(&v[0]).borrow_mut().push_segment(&b!(Sg, 1)).w(),
        "SweepSegment2Intersection::intersection" => get::<ws::SweepSegment2Intersection>(&v[0]).borrow_mut().intersection().w(),
        "field::a" => b!(we::Triangle2Indices, 0).a.w(),
        "field::b" => b!(we::Triangle2Indices, 0).b.w(),
        "field::c" => b!(we::Triangle2Indices, 0).c.w(),
        "triangulation::earcut_2::earcut" => we::earcut(Po::new(b!(Po, 0).vertices())).w(),
        "intersection::segment_2_segment_2::is_segment_2_segment_2_intersected" => wi::is_segment_2_segment_2_intersected(&b!(Sg, 0), &b!(Sg, 1)).w(),
        "intersection::segment_2_segment_2::segment_2_segment_2_intersection" => wi::segment_2_segment_2_intersection(&b!(Sg, 0), &b!(Sg, 1)).w(),
        "location::point_2_line_segment_2::is_point_2_on_line_segment_2" => wl::point_2_line_segment_2::is_point_2_on_line_segment_2(&b!(P, 0), &b!(Ls, 1)).w(),
        "location::point_2_circle_segment_2::is_point_2_on_circle_segment_2" => wl::point_2_circle_segment_2::is_point_2_on_circle_segment_2(&b!(P, 0), &b!(Ci, 1)).w(),
        "location::point_2_arc_segment_2::is_point_2_on_arc_segment_2" => wl::point_2_arc_segment_2::is_point_2_on_arc_segment_2(&b!(P, 0), &b!(Ar, 1)).w(),
        "location::point_2_line_segment_2::locate_point_2_line_segment_2" => en("Point2Segment2Location", wl::point_2_line_segment_2::locate_point_2_line_segment_2(&b!(P, 0), &b!(Ls, 1))),
        "location::point_2_circle_segment_2::locate_point_2_circle_segment_2" => en("Point2Circle2Location", wl::point_2_circle_segment_2::locate_point_2_circle_segment_2(&b!(P, 0), &b!(Ci, 1))),
        "location::point_2_arc_segment_2::locate_point_2_arc_segment_2" => en("Point2ArcSegment2Location", wl::point_2_arc_segment_2::locate_point_2_arc_segment_2(&b!(P, 0), &b!(Ar, 1))),
        "location::point_2_polygon_2::locate_point_2_polygon_2" => en("Point2Polygon2Location", wl::point_2_polygon_2::locate_point_2_polygon_2(&b!(P, 0), &b!(Po, 1))),
        "location::point_2_triangle_2::locate_point_2_triangle_2" => en("Point2Triangle2Location", wl::point_2_triangle_2::locate_point_2_triangle_2(&b!(P, 0), &b!(Tr, 1))),
        "projection::point_2_line_segment_2::point_2_project_line_segment_2" => wp::point_2_line_segment_2::point_2_project_line_segment_2(&b!(P, 0), &b!(Ls, 1)).w(),
        _ => V::E("Unknown", "UNKNOWNFN".to_string()),
    }
}
