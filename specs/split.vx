// C04 (and the paged-container part of C03)
//@include _base.vx
//@include _pages.vx
//@include _pagetag.vx
//@include _fxmap.vx
//@include _split.vx
fn main() {}
