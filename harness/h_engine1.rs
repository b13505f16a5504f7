//@ attach: root
//! boolean operations over axis-parallel input: exact oracle by winding numbers at a symbolic point
use crate::core::fill_rule::FillRule;
use crate::core::overlay::ContourDirection;
use crate::core::overlay_rule::OverlayRule;
use crate::vh::*;
use crate::vhl::*;

/// concrete subject, symbolic clip
fn near(s: &[C]) { all_rules(&with(anchors(0, 10), s), &[orect(4, NEAR)], &FILLS, true); }
crate::harness!(bool_alone, { all_rules(&[srect(0, R)], &[], &FILLS, false); });
crate::harness!(bool_square, { all_rules(&[rect(0, 0, 10, 10)], &[srect(4, R)], &FILLS, false); });
crate::harness!(bool_pair, { near(&[rect(0, 0, 10, 10), rect(4, 4, 14, 14)]); });
crate::harness!(bool_opp, { near(&[rect(0, 0, 10, 10), rect(14, 4, 4, 14)]); });
crate::harness!(bool_hole, { near(&[rect(0, 0, 12, 10), rect(8, 4, 4, 8)]); });
crate::harness!(bool_touch, { near(&[rect(0, 0, 10, 10), rect(10, 10, 20, 20)]); });
crate::harness!(bool_spiral, { near(&[poly(&[(0, 0), (20, 0), (20, 20), (8, 20), (8, 8), (30, 8), (30, 30), (0, 30)])]); });
crate::harness!(bool_cross_clip, { all_rules(&with(anchors(0, 30), &[rect(0, 0, 10, 30)]), &[rect(-10, 10, 20, 20), orect(4, NEAR)], &FILLS, true); });
/// skew figures: images of axis-parallel ones under integer maps, so that every crossing is a grid point
fn skew(m: M, s: &[C], c: &[C], r: i32) {
    let (dx, dy) = (16 * i32s(4, -r, r), 16 * i32s(5, -r, r));
    let c: Vec<C> = c.iter().map(|c| moved(c, dx, dy)).collect();
    all_rules_m(m, s, &c, &FILLS, true);
}
crate::harness!(skew_diag, { skew(M(1, 1, -1, 1), &[rect(0, 0, 160, 160)], &[rect(0, 0, 96, 96)], 1 << 20); });
crate::harness!(skew_21, { skew(M(2, 1, -1, 3), &[rect(0, 0, 160, 160)], &[rect(0, 0, 96, 96)], 1 << 20); });
crate::harness!(skew_neg, { skew(M(1, 3, 2, 1), &[rect(0, 0, 160, 160)], &[rect(0, 0, 96, 208)], 1 << 20); });
crate::harness!(skew_v, { skew(M(1, 0, 1, 1), &[rect(0, 0, 160, 160)], &[rect(0, 0, 96, 96)], 1 << 20); });
crate::harness!(skew_hole, { skew(M(2, 1, -1, 3), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(128, 32, 32, 128)]), &[rect(0, 0, 96, 96)], NEAR / 16); });
crate::harness!(skew_two, { skew(M(1, 2, -3, 1), &with(anchors(0, 160), &[rect(0, 0, 160, 160), rect(80, 80, 240, 240)]), &[rect(0, 0, 96, 96)], NEAR / 16); });
