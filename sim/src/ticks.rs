//! Conversions of instants and durations between resolutions and integer widths, judged in 128-bit arithmetic.
use crate::exec::momentous_tick::T;
use crate::exec::{fits, ty_bounds, S10, S1, S1k, S1m, SCALES};
use momentous::{Duration, Instant, Nanoseconds, Scale};

/// Instant operations.
pub const TK: [&str; 10] = ["floor", "split", "extend", "try_into", "try_from", "into", "widen", "checked_add", "add", "limits"];
/// Duration operations.
pub const DK: [&str; 12] = [
    "floor", "extend", "try_into", "try_from", "into", "widen", "div_rem_floor", "div_rem_ceil", "add", "sub", "mul", "compare",
];
pub type Ans = Option<Vec<i128>>;

fn dt<X: T, S: Scale>(d: Duration<X, S>) -> i128 {
    (Instant::<X, S>::epoch() + d).ticks_since_epoch().i()
}
fn dur<X: T, S: Scale>(x: i128) -> Duration<X, S> {
    Instant::<X, S>::from_ticks_since_epoch(X::of(x)).duration_since_epoch()
}
fn tick_scale<X, A, B>(kind: usize, x: i128, p: i128) -> Ans
where
    X: T,
    A: Scale,
    B: Scale,
{
    let a = Instant::<X, A>::from_ticks_since_epoch(X::of(x));
    if kind == 0 {
        Some(vec![a.floor::<B>().ticks_since_epoch().i()])
    } else {
        let _ = p;
        let (i, d) = a.split::<B>();
        Some(vec![i.ticks_since_epoch().i(), dt(d)])
    }
}
fn tick_extend<X: T, A: Scale, Y: T, B: Scale>(x: i128) -> Ans {
    Instant::<X, A>::from_ticks_since_epoch(X::of(x)).extend::<Y, B>().map(|i| vec![i.ticks_since_epoch().i()])
}
fn tick_width<X, Y, A>(kind: usize, x: i128, _: i128) -> Ans
where
    X: T + TryInto<Y>,
    Y: T,
    A: Scale,
{
    let a = Instant::<X, A>::from_ticks_since_epoch(X::of(x));
    if kind == 3 { a.try_into::<Y>() } else { Instant::<Y, A>::try_from(a) }.ok().map(|i| vec![i.ticks_since_epoch().i()])
}
fn tick_self<X: T, A: Scale>(kind: usize, x: i128, p: i128) -> Ans {
    let a = Instant::<X, A>::from_ticks_since_epoch(X::of(x));
    match kind {
        7 => a.checked_add(dur(p)).map(|i| vec![i.ticks_since_epoch().i()]),
        8 => Some(vec![(a + dur(p)).ticks_since_epoch().i()]),
        _ => {
            let (lo, hi, e) = (Instant::<X, A>::min_value(), Instant::<X, A>::max_value(), Instant::<X, A>::epoch());
            Some(vec![
                lo.ticks_since_epoch().i(),
                hi.ticks_since_epoch().i(),
                e.ticks_since_epoch().i(),
                dt(a.duration_since_epoch()),
                a.ticks_since_epoch().i(),
            ])
        }
    }
}
fn dur_scale<X, A, B>(kind: usize, x: i128, p: i128) -> Ans
where
    X: T,
    A: Scale,
    B: Scale,
{
    let d = dur::<X, A>(x);
    match kind {
        0 => Some(vec![dt(d.floor::<B>())]),
        1 => d.extend::<B>().map(|d| vec![dt(d)]),
        6 => {
            let (q, r) = d.div_rem_floor(dur::<X, B>(p));
            Some(vec![q.i(), dt(r)])
        }
        _ => {
            let (q, r) = d.div_rem_ceil(dur::<X, B>(p));
            Some(vec![q.i(), dt(r)])
        }
    }
}
fn dur_width<X, Y, A>(kind: usize, x: i128, _: i128) -> Ans
where
    X: T + TryInto<Y>,
    Y: T,
    A: Scale,
{
    if kind == 2 {
        dur::<X, A>(x).try_into::<Y>().ok().map(|d| vec![dt(d)])
    } else {
        Duration::<Y, A>::try_from(Instant::<X, A>::from_ticks_since_epoch(X::of(x))).ok().map(|d| vec![dt(d)])
    }
}
fn dur_self<X: T, A: Scale>(kind: usize, x: i128, p: i128) -> Ans {
    let d = dur::<X, A>(x);
    match kind {
        8 => Some(vec![dt(d + dur(p))]),
        9 => Some(vec![dt(d - dur(p))]),
        10 => Some(vec![dt(d * X::of(p))]),
        _ => {
            let e = dur::<X, A>(p);
            Some(vec![(d == e) as i128, (d < e) as i128, (d <= e) as i128, (d > e) as i128, d.cmp(&e) as i128, d.max(e).cmp(&d) as i128])
        }
    }
}
/// `into` and `widen` exist for some pairs of types only.
fn wide<S: Scale>(kind: usize, ty: usize, ty2: usize, x: i128) -> Option<Ans> {
    macro_rules! go {
        ($t:ty, $u:ty) => {{
            let a = Instant::<$t, S>::from_ticks_since_epoch(<$t as T>::of(x));
            let d = a.duration_since_epoch();
            Some(Some(vec![match kind {
                0 => a.into::<$u>().ticks_since_epoch() as i128,
                1 => a.widen::<$u>().ticks_since_epoch() as i128,
                2 => (Instant::<$u, S>::epoch() + d.into::<$u>()).ticks_since_epoch() as i128,
                _ => (Instant::<$u, S>::epoch() + d.widen::<$u>()).ticks_since_epoch() as i128,
            }]))
        }};
    }
    match (ty, ty2) {
        (0, 0) => go!(i64, i64),
        (0, 1) => go!(i64, i128),
        (1, 1) => go!(i128, i128),
        (2, 0) => go!(i32, i64),
        (2, 1) => go!(i32, i128),
        (2, 2) => go!(i32, i32),
        (3, 1) => go!(u64, i128),
        (3, 3) => go!(u64, u64),
        (4, 0) => go!(u32, i64),
        (4, 1) => go!(u32, i128),
        (4, 3) => go!(u32, u64),
        (4, 4) => go!(u32, u32),
        // widening to a narrower type keeps the wider one
        (0, 2) if kind == 1 => Some(Some(vec![Instant::<i64, S>::from_ticks_since_epoch(x as i64).widen::<i32>().ticks_since_epoch() as i128])),
        (1, 0) if kind == 1 => Some(Some(vec![Instant::<i128, S>::from_ticks_since_epoch(x).widen::<i64>().ticks_since_epoch()])),
        _ => None,
    }
}
macro_rules! with_type {
    ($i:expr, $n:ident => $e:expr) => {
        match $i {
            0 => { type $n = i64; $e }
            1 => { type $n = i128; $e }
            2 => { type $n = i32; $e }
            3 => { type $n = u64; $e }
            _ => { type $n = u32; $e }
        }
    };
}
macro_rules! with_scale {
    ($i:expr, $n:ident => $e:expr) => {
        match $i {
            0 => { type $n = S1; $e }
            1 => { type $n = S1k; $e }
            2 => { type $n = Nanoseconds; $e }
            3 => { type $n = S1m; $e }
            _ => { type $n = S10; $e }
        }
    };
}
fn wide_sc(kind: usize, ty: usize, sc: usize, ty2: usize, x: i128) -> Ans {
    match sc {
        0 => wide::<S1>(kind, ty, ty2, x),
        1 => wide::<S1k>(kind, ty, ty2, x),
        2 => wide::<Nanoseconds>(kind, ty, ty2, x),
        3 => wide::<S1m>(kind, ty, ty2, x),
        _ => wide::<S10>(kind, ty, ty2, x),
    }
    .unwrap_or(None)
}
pub fn call_tick(kind: usize, ty: usize, sc: usize, ty2: usize, sc2: usize, x: i128, p: i128) -> Ans {
    match kind {
        0 | 1 => with_type!(ty, X => with_scale!(sc, A => with_scale!(sc2, B => tick_scale::<X, A, B>(kind, x, p)))),
        2 => with_type!(ty, X => with_type!(ty2, Y => with_scale!(sc, A => with_scale!(sc2, B => tick_extend::<X, A, Y, B>(x))))),
        3 | 4 => with_type!(ty, X => with_type!(ty2, Y => with_scale!(sc, A => tick_width::<X, Y, A>(kind, x, p)))),
        5 => wide_sc(0, ty, sc, ty2, x),
        6 => wide_sc(1, ty, sc, ty2, x),
        _ => with_type!(ty, X => with_scale!(sc, A => tick_self::<X, A>(kind, x, p))),
    }
}
pub fn call_dur(kind: usize, ty: usize, sc: usize, ty2: usize, sc2: usize, x: i128, p: i128) -> Ans {
    match kind {
        0 | 1 | 6 | 7 => with_type!(ty, X => with_scale!(sc, A => with_scale!(sc2, B => dur_scale::<X, A, B>(kind, x, p)))),
        2 | 3 => with_type!(ty, X => with_type!(ty2, Y => with_scale!(sc, A => dur_width::<X, Y, A>(kind, x, p)))),
        4 => wide_sc(2, ty, sc, ty2, x),
        5 => wide_sc(3, ty, sc, ty2, x),
        _ => with_type!(ty, X => with_scale!(sc, A => dur_self::<X, A>(kind, x, p))),
    }
}
/// The second operand, from three small numbers: a plain number, one near a limit of the type, or one that leads
/// to zero or to a limit.
pub fn operand(x: i128, ty: usize, pk: i64, pv: i64, pe: i64) -> Option<i128> {
    let (lo, hi) = ty_bounds(ty);
    let v = pv as i128;
    let p = match pk.rem_euclid(6) {
        0 => v.checked_mul(10i128.pow(pe.rem_euclid(20) as u32)),
        1 => hi.checked_sub(v),
        2 => lo.checked_add(v),
        3 => v.checked_sub(x),
        4 => hi.checked_sub(x)?.checked_add(v),
        _ => lo.checked_sub(x)?.checked_add(v),
    }?;
    fits(ty, p).then_some(p)
}
pub enum Want {
    /// The answer; None is a refusal (None or an error).
    Is(Ans),
    /// Must panic.
    Panic,
    /// Not specified.
    Any,
}
fn ratio(a: usize, b: usize) -> i128 {
    SCALES[a] / SCALES[b]
}
fn coarser(sc: usize, sc2: usize) -> bool {
    SCALES[sc2] <= SCALES[sc]
}
fn pairs(widen: bool, ty: usize, ty2: usize) -> bool {
    matches!((ty, ty2), (0, 0 | 1) | (1, 1) | (2, 0..=2) | (3, 1 | 3) | (4, 0 | 1 | 3 | 4)) || (widen && matches!((ty, ty2), (0, 2) | (1, 0)))
}
fn opt(ty: usize, x: Option<i128>) -> Want {
    Want::Is(x.filter(|x| fits(ty, *x)).map(|x| vec![x]))
}
pub fn want_tick(kind: usize, ty: usize, sc: usize, ty2: usize, sc2: usize, x: i128, p: i128) -> Want {
    match kind {
        0 | 1 if !coarser(sc, sc2) => Want::Any,
        0 => Want::Is(Some(vec![x.div_euclid(ratio(sc, sc2))])),
        1 => {
            let f = ratio(sc, sc2);
            Want::Is(Some(vec![x.div_euclid(f), x.rem_euclid(f)]))
        }
        2 if !coarser(sc2, sc) => Want::Any,
        2 if !fits(ty2, x) => Want::Is(None),
        2 => opt(ty2, x.checked_mul(ratio(sc2, sc))),
        3 | 4 => opt(ty2, Some(x)),
        5 | 6 if pairs(kind == 6, ty, ty2) => Want::Is(Some(vec![x])),
        5 | 6 => Want::Any,
        7 => opt(ty, x.checked_add(p)),
        8 => match x.checked_add(p).filter(|x| fits(ty, *x)) {
            Some(v) => Want::Is(Some(vec![v])),
            None => Want::Panic,
        },
        _ => {
            let (lo, hi) = ty_bounds(ty);
            Want::Is(Some(vec![lo, hi, 0, x, x]))
        }
    }
}
pub fn want_dur(kind: usize, ty: usize, sc: usize, ty2: usize, sc2: usize, x: i128, p: i128) -> Want {
    let some = |v: Option<i128>| match v.filter(|v| fits(ty, *v)) {
        Some(v) => Want::Is(Some(vec![v])),
        None => Want::Any,
    };
    match kind {
        0 if !coarser(sc, sc2) => Want::Any,
        0 => Want::Is(Some(vec![x.div_euclid(ratio(sc, sc2))])),
        1 if !coarser(sc2, sc) => Want::Any,
        1 => opt(ty, x.checked_mul(ratio(sc2, sc))),
        2 | 3 => opt(ty2, Some(x)),
        4 | 5 if pairs(false, ty, ty2) => Want::Is(Some(vec![x])),
        4 | 5 => Want::Any,
        6 | 7 => {
            // both sides in ticks of the finer scale, well inside the type
            let l = SCALES[sc].max(SCALES[sc2]);
            let (Some(n), Some(d)) = (x.checked_mul(l / SCALES[sc]), p.checked_mul(l / SCALES[sc2])) else { return Want::Any };
            let (lo, hi) = ty_bounds(ty);
            if d == 0 || n > hi / 4 || d > hi / 4 || n < lo / 4 || d < lo / 4 {
                return Want::Any;
            }
            let mut q = n.div_euclid(d);
            if d < 0 && n.rem_euclid(d) != 0 {
                q -= 1; // rounded down
            }
            let exact = n % d == 0;
            let r = if kind == 6 {
                n - d * q
            } else {
                if !exact {
                    q += 1;
                }
                d * q - n
            };
            let f = l / SCALES[sc];
            if r % f == 0 {
                Want::Is(Some(vec![q, r / f]))
            } else {
                // the rest is finer than the duration's own resolution: only the quotient is specified
                Want::Is(Some(vec![q]))
            }
        }
        8 => some(x.checked_add(p)),
        9 => some(x.checked_sub(p)),
        10 => some(x.checked_mul(p)),
        _ => {
            let c = x.cmp(&p);
            Want::Is(Some(vec![(x == p) as i128, (x < p) as i128, (x <= p) as i128, (x > p) as i128, c as i128, x.max(p).cmp(&x) as i128]))
        }
    }
}
