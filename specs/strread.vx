// C08, C09: reading the string table
//@include _base.vx
//@include _text.vx
//@include _fxmap.vx
//@include _addr.vx
//@include _strid.vx
//@include _strtext.vx
//@include _header.vx
//@include _strread.vx
fn main() {}
