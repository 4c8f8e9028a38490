//! Runs calls of the real crate on behalf of the checks. One request per line: `fn arg arg ...`, arguments
//! `f<16 hex digits>` (bits of an f64), `i<int>`, `b0|b1`, `#<handle>`. The reply is one line on stderr.
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::{
    line_2_line_2::*, line_2_ray_2::*, line_segment_2_ray_2::*, segment_2_segment_2::*,
    sweep_segment_2_intersection::SweepSegment2Intersection,
};
use rcgal::algorithm::location::{
    point_2_arc_segment_2::*, point_2_circle_segment_2::*, point_2_line_2::*,
    point_2_line_segment_2::*, point_2_polygon_2::*, point_2_ray_2::*, point_2_triangle_2::*,
};
use rcgal::algorithm::projection::{point_2_line_2::*, point_2_line_segment_2::*};
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
#[cfg(rcgal_verif)]
use rcgal::data_structure::{avl_tree::*, circular_doubly_linked_list::*, priority_queue::*};
use rcgal::kernel::{
    arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, edge_2::Edge2, line_2::Line2,
    line_segment_2::LineSegment2, number_type::*, point_2::Point2, polygon_2::Polygon2,
    ray_2::Ray2, segment_2::Segment2, triangle_2::Triangle2, vector_2::Vector2, vertex_2::Vertex2,
};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type F = f64;

#[cfg(rcgal_wasm)]
mod wasm;

#[derive(Clone)]
enum V {
    F(F),
    S32(f32),
    I(i64),
    B(bool),
    E(&'static str, String),
    U,
    None,
    Some(Box<V>),
    L(Vec<V>),
    P(Point2<F>),
    Ve(Vector2<F>),
    Li(Line2<F>),
    Ls(LineSegment2<F>),
    Ci(CircleSegment2<F>),
    Ar(ArcSegment2<F>),
    Ra(Rc<Ray2<F>>),
    Tr(Rc<RefCell<Triangle2<F>>>),
    Po(Rc<Polygon2<F>>),
    Hu(Rc<RefCell<ConvexHull2<F>>>),
    Sw(Rc<RefCell<SweepSegment2Intersection<F>>>),
    Vx(Rc<RefCell<Vertex2<F>>>),
    Ed(Rc<RefCell<Edge2<F>>>),
    #[cfg(rcgal_verif)]
    Avl(Rc<RefCell<AVLTree<i64>>>),
    #[cfg(rcgal_verif)]
    Cl(Rc<RefCell<CircularDoubleLinkedList<i64>>>),
    #[cfg(rcgal_verif)]
    No(Rc<RefCell<ListNode<i64>>>),
    #[cfg(rcgal_verif)]
    Pq(Rc<RefCell<PriorityQueue<i64>>>),
    #[cfg(rcgal_wasm)]
    W(&'static str, Rc<dyn std::any::Any>),
}

macro_rules! get {
    ($n:ident, $v:ident, $t:ty) => {
        fn $n(&self, i: usize) -> &$t {
            match &self.0[i] {
                V::$v(x) => x,
                _ => panic!("REPLAYTYPE"),
            }
        }
    };
}
struct A(Vec<V>);
impl A {
    get!(p, P, Point2<F>);
    get!(v, Ve, Vector2<F>);
    get!(li, Li, Line2<F>);
    get!(ls, Ls, LineSegment2<F>);
    get!(ci, Ci, CircleSegment2<F>);
    get!(ar, Ar, ArcSegment2<F>);
    get!(ra, Ra, Rc<Ray2<F>>);
    get!(tr, Tr, Rc<RefCell<Triangle2<F>>>);
    get!(po, Po, Rc<Polygon2<F>>);
    get!(hu, Hu, Rc<RefCell<ConvexHull2<F>>>);
    get!(sw, Sw, Rc<RefCell<SweepSegment2Intersection<F>>>);
    get!(vx, Vx, Rc<RefCell<Vertex2<F>>>);
    get!(ed, Ed, Rc<RefCell<Edge2<F>>>);
    get!(l, L, Vec<V>);
    #[cfg(rcgal_verif)]
    get!(avl, Avl, Rc<RefCell<AVLTree<i64>>>);
    #[cfg(rcgal_verif)]
    get!(cl, Cl, Rc<RefCell<CircularDoubleLinkedList<i64>>>);
    #[cfg(rcgal_verif)]
    get!(no, No, Rc<RefCell<ListNode<i64>>>);
    #[cfg(rcgal_verif)]
    get!(pq, Pq, Rc<RefCell<PriorityQueue<i64>>>);
    fn f(&self, i: usize) -> F {
        match self.0[i] {
            V::F(x) => x,
            _ => panic!("REPLAYTYPE"),
        }
    }
    fn i(&self, i: usize) -> i64 {
        match self.0[i] {
            V::I(x) => x,
            _ => panic!("REPLAYTYPE"),
        }
    }
    fn b(&self, i: usize) -> bool {
        match self.0[i] {
            V::B(x) => x,
            _ => panic!("REPLAYTYPE"),
        }
    }
    fn ps(&self, i: usize) -> Vec<Point2<F>> {
        self.l(i)
            .iter()
            .map(|x| match x {
                V::P(p) => *p,
                _ => panic!("REPLAYTYPE"),
            })
            .collect()
    }
}

trait In {
    fn w(self) -> V;
}
macro_rules! into {
    ($($t:ty, $v:ident);*) => { $(impl In for $t { fn w(self) -> V { V::$v(self) } })* };
}
into!(F, F; f32, S32; bool, B; Point2<F>, P; Vector2<F>, Ve; Line2<F>, Li; LineSegment2<F>, Ls; CircleSegment2<F>, Ci;
      ArcSegment2<F>, Ar; Rc<Ray2<F>>, Ra; Rc<Polygon2<F>>, Po; Rc<RefCell<Vertex2<F>>>, Vx; Rc<RefCell<Edge2<F>>>, Ed);
impl In for () {
    fn w(self) -> V {
        V::U
    }
}
impl In for usize {
    fn w(self) -> V {
        V::I(self as i64)
    }
}
impl In for i64 {
    fn w(self) -> V {
        V::I(self)
    }
}
impl In for i32 {
    fn w(self) -> V {
        V::I(self as i64)
    }
}
impl<T: In> In for Option<T> {
    fn w(self) -> V {
        match self {
            Some(x) => V::Some(Box::new(x.w())),
            None => V::None,
        }
    }
}
impl<T: In> In for Vec<T> {
    fn w(self) -> V {
        V::L(self.into_iter().map(|x| x.w()).collect())
    }
}
impl<T: In, const N: usize> In for [T; N] {
    fn w(self) -> V {
        V::L(self.into_iter().map(|x| x.w()).collect())
    }
}
fn en<T: std::fmt::Debug>(ty: &'static str, x: T) -> V {
    V::E(ty, format!("{:?}", x))
}
fn ord(x: std::cmp::Ordering) -> V {
    V::I(x as i64)
}

macro_rules! seg {
    ($a:expr, $i:expr, $s:ident, $e:expr) => {
        match &$a.0[$i] {
            V::Ls($s) => $e,
            V::Ci($s) => $e,
            V::Ar($s) => $e,
            _ => panic!("REPLAYTYPE"),
        }
    };
}

fn dispatch(name: &str, a: &A) -> V {
    #[cfg(rcgal_wasm)]
    if name.starts_with("wasm::") {
        return wasm::dispatch(&name[6..], a);
    }
    let nm = name.replace("line_segment_2_circle_segment_2", "XX").replace("circle_segment_2_circle_segment_2", "XX")
        .replace("line_segment_2_line_segment_2", "XX").replace("arc_segment_2_arc_segment_2", "XX")
        .replace("circle_segment_2_arc_segment_2", "XX").replace("line_segment_2_arc_segment_2", "XX")
        .replace("segment_2_segment_2", "XX");
    match nm.as_str() {
        "XX_intersection" => return seg!(a, 0, s, seg!(a, 1, t, segment_2_segment_2_intersection(s, t).w())),
        "is_XX_intersected" => return seg!(a, 0, s, seg!(a, 1, t, is_segment_2_segment_2_intersected(s, t).w())),
        _ => {}
    }
    match name {
        "list" => V::L(a.0.clone()),
        "f32" => V::S32(a.f(0) as f32),
        "Point2::new" => Point2::new(a.f(0), a.f(1)).w(),
        "Point2::x" => a.p(0).x().w(),
        "Point2::y" => a.p(0).y().w(),
        "Point2::equals" => a.p(0).equals(a.p(1)).w(),
        "<Point2 as PartialEq>::eq" => (a.p(0) == a.p(1)).w(),
        "<Point2 as Ord>::cmp" => ord(a.p(0).cmp(a.p(1))),
        "<Point2 as PartialOrd>::partial_cmp" => match a.p(0).partial_cmp(a.p(1)) {
            Some(o) => V::Some(Box::new(ord(o))),
            None => V::None,
        },
        "<Point2 as Add>::add" => (*a.p(0) + *a.p(1)).w(),
        "<Point2 as Sub>::sub" => (*a.p(0) - *a.p(1)).w(),
        "Point2::get_vector" => a.p(0).get_vector().w(),
        "Point2::distance" => a.p(0).distance(a.p(1)).w(),
        "Point2::turn" => en("TurnDirection", Point2::turn(a.p(0), a.p(1), a.p(2))),
        "Vector2::new" => Vector2::new(a.f(0), a.f(1)).w(),
        "Vector2::x" => a.v(0).x().w(),
        "Vector2::y" => a.v(0).y().w(),
        "Vector2::length" => a.v(0).length().w(),
        "Vector2::normalize" => a.v(0).normalize().w(),
        "Vector2::dot" => a.v(0).dot(a.v(1)).w(),
        "Vector2::cross" => a.v(0).cross(a.v(1)).w(),
        "Vector2::radian_to" => a.v(0).radian_to(a.v(1)).w(),
        "<Vector2 as Add>::add" => (*a.v(0) + *a.v(1)).w(),
        "<Vector2 as Sub>::sub" => (*a.v(0) - *a.v(1)).w(),
        "<Vector2 as Mul>::mul" => (*a.v(0) * a.f(1)).w(),
        "<Vector2 as Div>::div" => (*a.v(0) / a.f(1)).w(),
        "<Vector2 as PartialEq>::eq" => (a.v(0) == a.v(1)).w(),
        "Line2::new" => Line2::new(a.f(0), a.f(1), a.f(2)).w(),
        "Line2::from_points" => Line2::from_points(a.p(0), a.p(1)).w(),
        "Line2::a" => a.li(0).a().w(),
        "Line2::b" => a.li(0).b().w(),
        "Line2::c" => a.li(0).c().w(),
        "<Line2 as PartialEq>::eq" => (a.li(0) == a.li(1)).w(),
        "LineSegment2::new" => LineSegment2::new(*a.p(0), *a.p(1)).w(),
        "<LineSegment2 as PartialEq>::eq" => (a.ls(0) == a.ls(1)).w(),
        "CircleSegment2::new" => CircleSegment2::new(*a.p(0), a.f(1)).w(),
        "CircleSegment2::monotone" => a.ci(0).monotone().w(),
        "ArcSegment2::new" => ArcSegment2::new(*a.ci(0), a.f(1), a.f(2)).w(),
        "ArcSegment2::is_top" => a.ar(0).is_top().w(),
        "ArcSegment2::monotone" => a.ar(0).monotone().w(),
        "<ArcSegment2 as PartialEq>::eq" => (a.ar(0) == a.ar(1)).w(),
        "<LineSegment2 as Segment2>::source" | "<CircleSegment2 as Segment2>::source" | "<ArcSegment2 as Segment2>::source" => seg!(a, 0, s, s.source().w()),
        "<LineSegment2 as Segment2>::target" | "<CircleSegment2 as Segment2>::target" | "<ArcSegment2 as Segment2>::target" => seg!(a, 0, s, s.target().w()),
        "<LineSegment2 as Segment2>::center" | "<CircleSegment2 as Segment2>::center" | "<ArcSegment2 as Segment2>::center" => seg!(a, 0, s, s.center().w()),
        "<LineSegment2 as Segment2>::radius" | "<CircleSegment2 as Segment2>::radius" | "<ArcSegment2 as Segment2>::radius" => seg!(a, 0, s, s.radius().w()),
        "<LineSegment2 as Segment2>::source_radian" | "<CircleSegment2 as Segment2>::source_radian" | "<ArcSegment2 as Segment2>::source_radian" => seg!(a, 0, s, s.source_radian().w()),
        "<LineSegment2 as Segment2>::target_radian" | "<CircleSegment2 as Segment2>::target_radian" | "<ArcSegment2 as Segment2>::target_radian" => seg!(a, 0, s, s.target_radian().w()),
        "<LineSegment2 as Segment2>::segment_type" | "<CircleSegment2 as Segment2>::segment_type" | "<ArcSegment2 as Segment2>::segment_type" => seg!(a, 0, s, en("Segment2Type", s.segment_type())),
        "Ray2::new" => Rc::new(Ray2::new(*a.p(0), *a.v(1))).w(),
        "Ray2::origin" => a.ra(0).origin().w(),
        "Ray2::direction" => a.ra(0).direction().w(),
        "Triangle2::new" => V::Tr(Rc::new(RefCell::new(Triangle2::new(*a.p(0), *a.p(1), *a.p(2))))),
        "Triangle2::a" => a.tr(0).borrow().a().w(),
        "Triangle2::b" => a.tr(0).borrow().b().w(),
        "Triangle2::c" => a.tr(0).borrow().c().w(),
        "Triangle2::vertices" => a.tr(0).borrow().vertices().w(),
        "Triangle2::edges" => a.tr(0).borrow().edges().w(),
        "Triangle2::orientation" => en("Orientation", a.tr(0).borrow().orientation()),
        "Triangle2::reverse_orientation" => a.tr(0).borrow_mut().reverse_orientation().w(),
        "Triangle2::area" => a.tr(0).borrow().area().w(),
        "Polygon2::new" => Rc::new(Polygon2::new(a.ps(0))).w(),
        "Polygon2::vertices" => a.po(0).vertices().w(),
        "Polygon2::edges" => a.po(0).edges().w(),
        "Polygon2::area" => a.po(0).area().w(),
        "Polygon2::is_simple" => a.po(0).is_simple().w(),
        "Polygon2::is_convex" => a.po(0).is_convex().w(),
        "is_line_2_line_2_intersected" => is_line_2_line_2_intersected(a.li(0), a.li(1)).w(),
        "line_2_line_2_intersection" => line_2_line_2_intersection(a.li(0), a.li(1)).w(),
        "is_line_2_ray_2_intersected" => is_line_2_ray_2_intersected(a.li(0), a.ra(1)).w(),
        "line_2_ray_2_intersection" => line_2_ray_2_intersection(a.li(0), a.ra(1)).w(),
        "is_line_segment_2_ray_2_intersected" => is_line_segment_2_ray_2_intersected(a.ls(0), a.ra(1)).w(),
        "line_segment_2_ray_2_intersection" => line_segment_2_ray_2_intersection(a.ls(0), a.ra(1)).w(),
        "is_point_2_on_line_2" => is_point_2_on_line_2(a.p(0), a.li(1)).w(),
        "locate_point_2_line_2" => en("Point2Line2Location", locate_point_2_line_2(a.p(0), a.li(1))),
        "is_point_2_on_line_segment_2" => seg!(a, 1, s, is_point_2_on_line_segment_2(a.p(0), s).w()),
        "locate_point_2_line_segment_2" => seg!(a, 1, s, en("Point2Segment2Location", locate_point_2_line_segment_2(a.p(0), s))),
        "is_point_2_on_circle_segment_2" => is_point_2_on_circle_segment_2(a.p(0), a.ci(1)).w(),
        "locate_point_2_circle_segment_2" => en("Point2Circle2Location", locate_point_2_circle_segment_2(a.p(0), a.ci(1))),
        "is_point_2_on_arc_segment_2" => seg!(a, 1, s, is_point_2_on_arc_segment_2(a.p(0), s).w()),
        "locate_point_2_arc_segment_2" => seg!(a, 1, s, en("Point2ArcSegment2Location", locate_point_2_arc_segment_2(a.p(0), s))),
        "is_point_2_on_ray_2" => is_point_2_on_ray_2(a.p(0), a.ra(1)).w(),
        "locate_point_2_ray_2" => en("Point2Ray2Location", locate_point_2_ray_2(a.p(0), a.ra(1))),
        "is_point_2_on_polygon_2" => is_point_2_on_polygon_2(a.p(0), a.po(1)).w(),
        "is_point_2_inside_polygon_2" => is_point_2_inside_polygon_2(a.p(0), a.po(1)).w(),
        "is_point_2_outside_polygon_2" => is_point_2_outside_polygon_2(a.p(0), a.po(1)).w(),
        "locate_point_2_polygon_2" => en("Point2Polygon2Location", locate_point_2_polygon_2(a.p(0), a.po(1))),
        "locate_point_2_triangle_2" => en("Point2Triangle2Location", locate_point_2_triangle_2(a.p(0), &a.tr(1).borrow())),
        "point_2_project_line_2" => point_2_project_line_2(a.p(0), a.li(1)).w(),
        "point_2_project_line_segment_2" => seg!(a, 1, s, point_2_project_line_segment_2(a.p(0), s).w()),
        "ConvexHull2::new" => V::Hu(Rc::new(RefCell::new(ConvexHull2::new(a.ps(0))))),
        "ConvexHull2::convex_hull" => a.hu(0).borrow_mut().convex_hull().w(),
        "SweepSegment2Intersection::new" => V::Sw(Rc::new(RefCell::new(SweepSegment2Intersection::new()))),
        "SweepSegment2Intersection::push_segment" => seg!(a, 1, s, a.sw(0).borrow_mut().push_segment(s).w()),
        "SweepSegment2Intersection::intersection" => a.sw(0).borrow_mut().intersection().w(),
        "earcut_2" => earcut_2(Polygon2::new(a.po(0).vertices())).w(),
        "Vertex2::new" => Rc::new(RefCell::new(Vertex2::new(a.f(0), a.f(1)))).w(),
        "Vertex2::x" => a.vx(0).borrow().x().w(),
        "Vertex2::y" => a.vx(0).borrow().y().w(),
        "Vertex2::edges" => a.vx(0).borrow().edges().w(),
        "Vertex2::add_edge" => a.vx(0).borrow_mut().add_edge(a.ed(1).clone()).w(),
        "Vertex2::remove_edge" => a.vx(0).borrow_mut().remove_edge(a.ed(1).clone()).w(),
        "Vertex2::equals" => a.vx(0).borrow().equals(&a.vx(1).borrow()).w(),
        "Vertex2::to_point" => a.vx(0).borrow().to_point().w(),
        "<Vertex2 as PartialEq>::eq" => (*a.vx(0).borrow() == *a.vx(1).borrow()).w(),
        "<Vertex2 as Ord>::cmp" => ord(a.vx(0).borrow().cmp(&a.vx(1).borrow())),
        "<Vertex2 as PartialOrd>::partial_cmp" => match a.vx(0).borrow().partial_cmp(&a.vx(1).borrow()) {
            Some(o) => V::Some(Box::new(ord(o))),
            None => V::None,
        },
        "Edge2::new_segment" => Rc::new(RefCell::new(Edge2::new_segment(a.vx(0).clone(), a.vx(1).clone()))).w(),
        "Edge2::new_arc" => Rc::new(RefCell::new(Edge2::new_arc(a.vx(0).clone(), a.vx(1).clone()))).w(),
        "Edge2::source" => a.ed(0).borrow().source().w(),
        "Edge2::target" => a.ed(0).borrow().target().w(),
        "Edge2::set_source" => a.ed(0).borrow_mut().set_source(a.vx(1).clone()).w(),
        "Edge2::set_target" => a.ed(0).borrow_mut().set_target(a.vx(1).clone()).w(),
        "Edge2::twin" => a.ed(0).borrow().twin().w(),
        "Edge2::set_twin" => a.ed(0).borrow_mut().set_twin(a.ed(1).clone()).w(),
        "Edge2::next" => a.ed(0).borrow().next().w(),
        "Edge2::set_next" => a.ed(0).borrow_mut().set_next(a.ed(1).clone()).w(),
        "Edge2::prev" => a.ed(0).borrow().prev().w(),
        "Edge2::set_prev" => a.ed(0).borrow_mut().set_prev(a.ed(1).clone()).w(),
        "Edge2::edge_type" => en("Edge2Type", a.ed(0).borrow().edge_type()),
        "Edge2::to_segment" => a.ed(0).borrow().to_segment().w(),
        "Edge2::to_arc" => a.ed(0).borrow().to_arc().w(),
        "<Edge2 as PartialEq>::eq" => (*a.ed(0).borrow() == *a.ed(1).borrow()).w(),
        "same" => match (&a.0[0], &a.0[1]) {
            (V::Vx(x), V::Vx(y)) => Rc::ptr_eq(x, y).w(),
            (V::Ed(x), V::Ed(y)) => Rc::ptr_eq(x, y).w(),
            #[cfg(rcgal_verif)]
            (V::No(x), V::No(y)) => Rc::ptr_eq(x, y).w(),
            _ => panic!("REPLAYTYPE"),
        },
        "f64::zero" => <f64 as DefaultNumberValueTrait>::zero().w(),
        "f64::pi" => <f64 as DefaultNumberValueTrait>::pi().w(),
        "f64::default" => <f64 as DefaultNumberValueTrait>::default().w(),
        "f64::default_eps" => <f64 as DefaultNumberValueTrait>::default_eps().w(),
        "f64::from_f64" => <f64 as DefaultNumberValueTrait>::from_f64(a.f(0)).w(),
        "f64::sqrt" => <f64 as NumberType>::sqrt(a.f(0)).w(),
        "f64::abs" => <f64 as NumberType>::abs(a.f(0)).w(),
        "f64::sin" => <f64 as NumberType>::sin(a.f(0)).w(),
        "f64::cos" => <f64 as NumberType>::cos(a.f(0)).w(),
        "f64::acos" => <f64 as NumberType>::acos(a.f(0)).w(),
        "f64::atan" => <f64 as NumberType>::atan(a.f(0)).w(),
        "f64::atan2" => <f64 as NumberType>::atan2(a.f(0), a.f(1)).w(),
        "f64::equals" => <f64 as NumberType>::equals(a.f(0), a.f(1)).w(),
        "f32::zero" => (<f32 as DefaultNumberValueTrait>::zero() as f64).w(),
        "f32::pi" => (<f32 as DefaultNumberValueTrait>::pi() as f64).w(),
        "f32::default" => (<f32 as DefaultNumberValueTrait>::default() as f64).w(),
        "f32::default_eps" => (<f32 as DefaultNumberValueTrait>::default_eps() as f64).w(),
        "f32::from_f64" => (<f32 as DefaultNumberValueTrait>::from_f64(a.f(0)) as f64).w(),
        "f32::sqrt" => (<f32 as NumberType>::sqrt(a.f(0) as f32) as f64).w(),
        "f32::abs" => (<f32 as NumberType>::abs(a.f(0) as f32) as f64).w(),
        "f32::sin" => (<f32 as NumberType>::sin(a.f(0) as f32) as f64).w(),
        "f32::cos" => (<f32 as NumberType>::cos(a.f(0) as f32) as f64).w(),
        "f32::acos" => (<f32 as NumberType>::acos(a.f(0) as f32) as f64).w(),
        "f32::atan" => (<f32 as NumberType>::atan(a.f(0) as f32) as f64).w(),
        "f32::atan2" => (<f32 as NumberType>::atan2(a.f(0) as f32, a.f(1) as f32) as f64).w(),
        "f32::equals" => <f32 as NumberType>::equals(a.f(0) as f32, a.f(1) as f32).w(),
        #[cfg(rcgal_verif)]
        "AVLTree::new" => V::Avl(Rc::new(RefCell::new(AVLTree::new(match a.i(0) {
            0 => AVLTreeOption::DisableSameNode,
            _ => AVLTreeOption::SameNodeInsertRight,
        })))),
        #[cfg(rcgal_verif)]
        "AVLTree::insert" => a.avl(0).borrow_mut().insert(a.i(1)).w(),
        #[cfg(rcgal_verif)]
        "AVLTree::delete" => a.avl(0).borrow_mut().delete(a.i(1)).w(),
        #[cfg(rcgal_verif)]
        "AVLTree::clear" => a.avl(0).borrow_mut().clear().w(),
        #[cfg(rcgal_verif)]
        "AVLTree::mid_order_traversal" => a.avl(0).borrow().mid_order_traversal().w(),
        #[cfg(rcgal_verif)]
        "AVLTree::dump" => V::E("Debug", format!("{:?}", a.avl(0).borrow()).replace(' ', "")),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::new" => V::Cl(Rc::new(RefCell::new(CircularDoubleLinkedList::new()))),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::insert" => V::No(a.cl(0).borrow_mut().insert(nodeopt(&a.0[1]), a.i(2))),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::delete" => a.cl(0).borrow_mut().delete(nodeopt(&a.0[1])).w(),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::head" => optnode(a.cl(0).borrow().head()),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::tail" => optnode(a.cl(0).borrow().tail()),
        #[cfg(rcgal_verif)]
        "CircularDoubleLinkedList::len" => a.cl(0).borrow().len().w(),
        #[cfg(rcgal_verif)]
        "node.next" => optnode(a.no(0).borrow().next.clone()),
        #[cfg(rcgal_verif)]
        "node.prev" => optnode(a.no(0).borrow().prev.clone()),
        #[cfg(rcgal_verif)]
        "node.data" => a.no(0).borrow().data.w(),
        #[cfg(rcgal_verif)]
        "PriorityQueue::new" => V::Pq(Rc::new(RefCell::new(PriorityQueue::new()))),
        #[cfg(rcgal_verif)]
        "PriorityQueue::push" => a.pq(0).borrow_mut().push(a.i(1)).w(),
        #[cfg(rcgal_verif)]
        "PriorityQueue::pop" => a.pq(0).borrow_mut().pop().w(),
        #[cfg(rcgal_verif)]
        "PriorityQueue::is_empty" => a.pq(0).borrow().is_empty().w(),
        #[cfg(rcgal_verif)]
        "PriorityQueue::clear" => a.pq(0).borrow_mut().clear().w(),
        "none" => V::None,
        "flag" => a.b(0).w(),
        _ => V::E("Unknown", "UNKNOWNFN".to_string()),
    }
}

#[cfg(rcgal_verif)]
fn nodeopt(v: &V) -> Option<Rc<RefCell<ListNode<i64>>>> {
    match v {
        V::No(n) => Some(n.clone()),
        V::None => None,
        _ => panic!("REPLAYTYPE"),
    }
}
#[cfg(rcgal_verif)]
fn optnode(n: Option<Rc<RefCell<ListNode<i64>>>>) -> V {
    match n {
        Some(n) => V::Some(Box::new(V::No(n))),
        None => V::None,
    }
}

fn show(v: &V, store: &mut Vec<V>, out: &mut String) {
    let mut h = |t: &str, out: &mut String| {
        store.push(v.clone());
        out.push_str(&format!("#{}:{} ", store.len() - 1, t));
    };
    match v {
        V::F(x) => out.push_str(&format!("f{:016x} ", x.to_bits())),
        V::S32(x) => out.push_str(&format!("f{:016x} ", (*x as f64).to_bits())),
        V::I(x) => out.push_str(&format!("i{} ", x)),
        V::B(x) => out.push_str(if *x { "b1 " } else { "b0 " }),
        V::E(t, x) => out.push_str(&format!("e{}:{} ", t, x)),
        V::U => out.push_str("U "),
        V::None => out.push_str("N "),
        V::Some(x) => {
            out.push_str("S ");
            show(x, store, out);
        }
        V::L(x) => {
            out.push_str("[ ");
            for y in x {
                show(y, store, out);
            }
            out.push_str("] ");
            store.push(v.clone());
            out.push_str(&format!("@{} ", store.len() - 1));
        }
        V::P(_) => h("Point2", out),
        V::Ve(_) => h("Vector2", out),
        V::Li(_) => h("Line2", out),
        V::Ls(_) => h("LineSegment2", out),
        V::Ci(_) => h("CircleSegment2", out),
        V::Ar(_) => h("ArcSegment2", out),
        V::Ra(_) => h("Ray2", out),
        V::Tr(_) => h("Triangle2", out),
        V::Po(_) => h("Polygon2", out),
        V::Hu(_) => h("ConvexHull2", out),
        V::Sw(_) => h("SweepSegment2Intersection", out),
        V::Vx(_) => h("Vertex2", out),
        V::Ed(_) => h("Edge2", out),
        #[cfg(rcgal_verif)]
        V::Avl(_) => h("AVLTree", out),
        #[cfg(rcgal_verif)]
        V::Cl(_) => h("CircularDoubleLinkedList", out),
        #[cfg(rcgal_verif)]
        V::No(_) => h("ListNode", out),
        #[cfg(rcgal_verif)]
        V::Pq(_) => h("PriorityQueue", out),
        #[cfg(rcgal_wasm)]
        V::W(t, _) => h(t, out),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut store: Vec<V> = Vec::new();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => return,
        };
        let mut it = line.split_whitespace();
        let name = match it.next() {
            Some(n) => n.to_string(),
            None => continue,
        };
        if name == "reset" {
            store.clear();
            eprintln!("U");
            continue;
        }
        // names may contain ` as `: joined with `~` by the caller
        let name = name.replace('~', " ");
        let mut args = Vec::new();
        for t in it {
            let (k, r) = t.split_at(1);
            args.push(match k {
                "f" => V::F(f64::from_bits(u64::from_str_radix(r, 16).unwrap())),
                "i" => V::I(r.parse().unwrap()),
                "b" => V::B(r == "1"),
                "N" => V::None,
                "e" => V::E("Enum", r.to_string()),
                _ => store[r.parse::<usize>().unwrap()].clone(),
            });
        }
        let args = A(args);
        let r = catch_unwind(AssertUnwindSafe(|| dispatch(&name, &args)));
        let mut out = String::new();
        match r {
            Ok(v) => show(&v, &mut store, &mut out),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                };
                out.push_str("P ");
                out.push_str(&m.replace('\n', " "));
            }
        }
        let err = std::io::stderr();
        let mut e = err.lock();
        let _ = writeln!(e, "{}", out);
    }
}
