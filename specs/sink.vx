// C01, C02, C03: SerializationSink
//@include _base.vx
//@include _pages.vx
//@include _pagetag.vx
//@include _fxmap.vx
//@include _split.vx
//@include _sink.vx
fn main() {}
