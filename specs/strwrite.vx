// C08, C09: writing the string table
//@include _base.vx
//@include _text.vx
//@include _addr.vx
//@include _header.vx
//@include _sinkapi.vx
//@include _hdrwrite.vx
//@include _strid.vx
//@include _strtext.vx
fn main() {}
//@grw $x:recv . to_le_bytes ( ) ==> vx_u64_to_le ( $x )
//@grw $x:recv . to_le ( ) ==> vx_to_le ( $x )
//@grw $s:id . len ( ) ==> vx_len ( & $s )
//@grw self . len ( ) ==> vx_len ( self )
verus! {
/// `len` of text, byte slices and vectors
pub trait VxLen { spec fn vx_len_spec(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vx_len_spec(), r <= 0x7fff_ffff_ffff_ffff; }
impl VxLen for str { open spec fn vx_len_spec(&self) -> nat { encode_utf8(self@).len() }  fn vx_len(&self) -> (r: usize) { vx_str_len(self) } }
impl VxLen for [u8] { open spec fn vx_len_spec(&self) -> nat { self@.len() }  fn vx_len(&self) -> (r: usize) { proof { axiom_slice_len(self); } self.len() } }
impl<T: VxLen + ?Sized> VxLen for &T { open spec fn vx_len_spec(&self) -> nat { (**self).vx_len_spec() }  fn vx_len(&self) -> (r: usize) { (**self).vx_len() } }
impl VxLen for &mut [u8] { open spec fn vx_len_spec(&self) -> nat { (*self)@.len() }  #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl VxLen for Vec<StringId> { open spec fn vx_len_spec(&self) -> nat { self@.len() }  #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
impl VxLen for Vec<[u64; 2]> { open spec fn vx_len_spec(&self) -> nat { self@.len() }  #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } }
pub fn vx_len<T: VxLen + ?Sized>(t: &T) -> (r: usize) ensures r == t.vx_len_spec(), r <= 0x7fff_ffff_ffff_ffff { t.vx_len() }

/// u64::to_le on a little-endian machine
#[verifier::external_body]
pub fn vx_to_le(x: u64) -> (r: u64) ensures r == x { unimplemented!() }
//@item measureme/src/stringtable.rs :: enum StringComponent
//@end
pub open spec fn piece(c: StringComponent<'_>) -> Piece {
    match c { StringComponent::Value(s) => Piece::Value(encode_utf8(s@)), StringComponent::Ref(id) => Piece::Ref(id.0) }
}
pub open spec fn pieces_of(cs: Seq<StringComponent<'_>>) -> Seq<Piece> { cs.map_values(|c: StringComponent<'_>| piece(c)) }

/// the bytes of a stored entry are determined by its pieces
pub proof fn lemma_pieces_unique(a: Seq<u8>, b: Seq<u8>, cs: Seq<Piece>)
    requires is_pieces(a, cs), is_pieces(b, cs),
    ensures a == b,
    decreases cs.len()
{
    if cs.len() == 0 { assert(a =~= b); } else {
        let n = piece_len(cs[0]) as int;
        let (a0, a1, b0, b1) = (a.subrange(0, n), a.subrange(n, a.len() as int), b.subrange(0, n), b.subrange(n, b.len() as int));
        lemma_pieces_unique(a1, b1, cs.drop_first());
        match cs[0] {
            Piece::Value(s) => {}
            Piece::Ref(id) => {
                lemma_le64_inj(a0.subrange(1, 9), b0.subrange(1, 9));
                assert(a0 =~= seq![a0[0]] + a0.subrange(1, 9));
                assert(b0 =~= seq![b0[0]] + b0.subrange(1, 9));
            }
        }
        assert(a =~= a0 + a1);
        assert(b =~= b0 + b1);
    }
}
pub proof fn lemma_entry_unique(a: Seq<u8>, b: Seq<u8>, cs: Seq<Piece>)
    requires is_entry(a, cs), is_entry(b, cs),
    ensures a == b,
{
    lemma_pieces_unique(a.drop_last(), b.drop_last(), cs);
    assert(a =~= a.drop_last().push(a.last()));
    assert(b =~= b.drop_last().push(b.last()));
}
pub open spec fn is_index_entry(e: Seq<u8>, id: StringId, a: Addr) -> bool { e.len() == 16 && entry_id(e) == id && entry_addr(e) == a }

pub trait SerializableString {
    /// what is to be stored
    spec fn pieces(&self) -> Seq<Piece>;
    fn serialized_size(&self) -> (r: usize)
        requires pieces_len(self.pieces()) < 0x7fff_ffff_ffff_ffff,
        ensures r == pieces_len(self.pieces()) + 1;
    fn serialize(&self, bytes: &mut [u8])
        requires old(bytes)@.len() == pieces_len(self.pieces()) + 1, pieces_len(self.pieces()) < 0x7fff_ffff_ffff_ffff,
        ensures is_entry(final(bytes)@, self.pieces());
}
impl SerializableString for str {
    open spec fn pieces(&self) -> Seq<Piece> { seq![Piece::Value(encode_utf8(self@))] }
//@item measureme/src/stringtable.rs :: impl SerializableString for str :: fn serialized_size
//@nopub
//@ret r
//@start
    proof { lemma_one_value(encode_utf8(self@)); }
//@end
//@item measureme/src/stringtable.rs :: impl SerializableString for str :: fn serialize
//@nopub
//@start
    proof { lemma_one_value(encode_utf8(self@)); }
//@finish
    proof { assert(bytes@.drop_last() =~= encode_utf8(self@)); }
//@end
}
pub proof fn lemma_one_value(s: Seq<u8>)
    ensures pieces_len(seq![Piece::Value(s)]) == s.len(), is_pieces(s, seq![Piece::Value(s)]),
{
    let cs = seq![Piece::Value(s)];
    assert(cs.drop_first() =~= Seq::<Piece>::empty());
    assert(pieces_len(cs.drop_first()) == 0);
    assert(s.subrange(0, s.len() as int) =~= s);
    assert(s.subrange(s.len() as int, s.len() as int).len() == 0);
    assert(is_pieces(s.subrange(s.len() as int, s.len() as int), cs.drop_first()));
}
impl<'s> StringComponent<'s> {
//@item measureme/src/stringtable.rs :: impl StringComponent :: fn serialized_size
//@ret r
//@spec
    ensures r == piece_len(piece(*self)), //# C08
//@end
//@item measureme/src/stringtable.rs :: impl StringComponent :: fn serialize
//@ret r
//@spec
    requires old(bytes)@.len() >= piece_len(piece(*self)),
    ensures
        r@ == old(bytes)@.subrange(piece_len(piece(*self)) as int, old(bytes)@.len() as int), //# C08
        final(bytes)@.len() == old(bytes)@.len(),
        is_piece(final(bytes)@.subrange(0, piece_len(piece(*self)) as int), piece(*self)), //# C08
        final(bytes)@.subrange(piece_len(piece(*self)) as int, final(bytes)@.len() as int) == final(r)@, //# C08
//@end
}
} // verus!
//@grw self . iter ( ) . map ( | $c:id | $c . serialized_size ( ) ) . sum :: < usize > ( ) ==> vx_sum_sizes ( self )
//@grw & * $s:place ==> & $s
verus! {
/// `.iter().map(|c| c.serialized_size()).sum::<usize>()`
pub fn vx_sum_sizes<'a>(cs: &[StringComponent<'a>]) -> (r: usize)
    requires pieces_len(pieces_of(cs@)) < 0x7fff_ffff_ffff_ffff,
    ensures r == pieces_len(pieces_of(cs@)),
{
    let mut n: usize = 0;
    proof { assert(pieces_of(cs@).skip(0) =~= pieces_of(cs@)); }
    for c in it: cs.iter()
        invariant
            n + pieces_len(pieces_of(cs@).skip(it.index@)) == pieces_len(pieces_of(cs@)) < 0x7fff_ffff_ffff_ffff,
    {
        let ghost k = it.index@;
        proof { lemma_skip(pieces_of(cs@), k); }
        n = n + c.serialized_size();
    }
    proof { assert(pieces_of(cs@).skip(cs@.len() as int) =~= Seq::<Piece>::empty()); }
    n
}
pub proof fn lemma_skip(cs: Seq<Piece>, k: int)
    requires 0 <= k < cs.len(),
    ensures pieces_len(cs.skip(k)) == piece_len(cs[k]) + pieces_len(cs.skip(k + 1)), cs.skip(k)[0] == cs[k], cs.skip(k).drop_first() == cs.skip(k + 1),
{ assert(cs.skip(k).drop_first() =~= cs.skip(k + 1)); }

/// putting the pieces from number k on behind one another
pub proof fn lemma_pieces_cons(b: Seq<u8>, cs: Seq<Piece>, k: int)
    requires
        0 <= k < cs.len(), piece_len(cs[k]) <= b.len(),
        is_piece(b.subrange(0, piece_len(cs[k]) as int), cs[k]),
        is_pieces(b.subrange(piece_len(cs[k]) as int, b.len() as int), cs.skip(k + 1)),
    ensures is_pieces(b, cs.skip(k)),
{ lemma_skip(cs, k); }

pub proof fn lemma_entry_cons(b: Seq<u8>, r: Seq<u8>, cs: Seq<Piece>, k: int)
    requires
        0 <= k < cs.len(), piece_len(cs[k]) < b.len(),
        is_piece(b.subrange(0, piece_len(cs[k]) as int), cs[k]),
        b.subrange(piece_len(cs[k]) as int, b.len() as int) == r,
    ensures is_entry(r, cs.skip(k + 1)) ==> is_entry(b, cs.skip(k)),
{
    if is_entry(r, cs.skip(k + 1)) {
        let d = b.drop_last();
        let n = piece_len(cs[k]) as int;
        assert(d.subrange(0, n) =~= b.subrange(0, n));
        assert(d.subrange(n, d.len() as int) =~= r.drop_last());
        assert(r.last() == b.last());
        lemma_pieces_cons(d, cs, k);
    }
}

impl<'a> SerializableString for [StringComponent<'a>] {
    open spec fn pieces(&self) -> Seq<Piece> { pieces_of(self@) }
//@item measureme/src/stringtable.rs :: impl SerializableString for [StringComponent<'a>] :: fn serialized_size
//@nopub
//@ret r
//@end
//@item measureme/src/stringtable.rs :: impl SerializableString for [StringComponent<'a>] :: fn serialize
//@nopub
//@start
    let ghost cs = pieces_of(self@);
    proof { assert(cs.skip(0) =~= cs); }
    let ghost g0 = final(bytes)@;
//@loopbind 0 it
//@loop 0
    invariant
        cs == pieces_of(self@),
        bytes@.len() == pieces_len(cs.skip(it.index@)) + 1,
        is_entry(final(bytes)@, cs.skip(it.index@)) ==> is_entry(g0, cs),
//@loopstart 0
    proof { lemma_skip(cs, it.index@); }
    let ghost f0 = final(bytes)@;
//@loopend 0
    proof { lemma_entry_cons(f0, final(bytes)@, cs, it.index@); }
//@before bytes [ 0 ] = TERMINATOR
    proof { assert(cs.skip(cs.len() as int) =~= Seq::<Piece>::empty()); }
//@finish
    proof { assert(is_pieces(bytes@.drop_last(), cs.skip(cs.len() as int))); }
//@end
}
/// `&array[..]`
#[verifier::external_body]
pub fn vx_array_slice<'a, 's, const N: usize>(a: &'s [StringComponent<'a>; N]) -> (r: &'s [StringComponent<'a>])
    ensures r@ == a@
{ unimplemented!() }
/// the body of the macro, for an array of any length
impl<'a, const N: usize> SerializableString for [StringComponent<'a>; N] {
    open spec fn pieces(&self) -> Seq<Piece> { pieces_of(self@) }
//@item measureme/src/stringtable.rs :: macro impl_serializable_string_for_fixed_size :: impl SerializableString for [StringComponent<'a>; $n] :: fn serialized_size
//@nopub
//@rw & self [ .. ] ==> vx_array_slice ( self )
//@ret r
//@end
//@item measureme/src/stringtable.rs :: macro impl_serializable_string_for_fixed_size :: impl SerializableString for [StringComponent<'a>; $n] :: fn serialize
//@nopub
//@rw & self [ .. ] ==> vx_array_slice ( self )
//@end
}
} // verus!
//@grw write_file_header ( & mut data_sink . as_std_write ( ) , $$m ) ==> write_file_header ( & mut data_sink . as_std_write ( ) , $m , Tracked ( & mut * w ) )
//@grw write_file_header ( & mut index_sink . as_std_write ( ) , $$m ) ==> write_file_header ( & mut index_sink . as_std_write ( ) , $m , Tracked ( & mut * wi ) )
//@grw serialize_index_entry ( $$x ) ==> serialize_index_entry ( $x , Tracked ( & mut * wi ) )
//@grw self . alloc ( $$x ) ==> self . alloc ( $x , Tracked ( & mut * w ) )
//@grw type MappingEntry = [ u64 ; 2 ] ; ==>
//@grw std :: mem :: size_of :: < MappingEntry > ( ) ==> 16
//@grw MappingEntry ==> [ u64 ; 2 ]
//@grw let byte_ptr = $v:id . as_ptr ( ) as * const u8 ; ==>
//@grw unsafe { std :: slice :: from_raw_parts ( byte_ptr , $$n ) } ==> vx_pairs_bytes ( & serialized , $n )
//@grw self . index_sink . write_bytes_atomic ( $$x ) ==> self . index_sink . write_bytes_atomic ( $x , Tracked ( & mut * wi ) )
verus! {
//@item measureme/src/stringtable.rs :: struct StringTableBuilder
//@end

/// bytes of one index entry
pub open spec fn index_bytes(id: StringId, a: Addr) -> Seq<u8> { choose|e: Seq<u8>| is_index_entry(e, id, a) }
pub proof fn lemma_index_unique(e: Seq<u8>, id: StringId, a: Addr)
    requires is_index_entry(e, id, a),
    ensures index_bytes(id, a) == e,
{
    let f = index_bytes(id, a);
    assert(is_index_entry(f, id, a));
    lemma_le64_inj(e.subrange(0, 8), f.subrange(0, 8));
    lemma_le64_inj(e.subrange(8, 16), f.subrange(8, 16));
    assert(e =~= e.subrange(0, 8) + e.subrange(8, 16));
    assert(f =~= f.subrange(0, 8) + f.subrange(8, 16));
}
pub open spec fn entry_bytes(cs: Seq<Piece>) -> Seq<u8> { choose|e: Seq<u8>| is_entry(e, cs) }

/// no Vec is larger than isize::MAX bytes
pub axiom fn axiom_pairs_len(v: &Vec<[u64; 2]>) ensures v@.len() <= 0x07ff_ffff_ffff_ffff;
/// the bytes of a vector of pairs, as written by a little-endian machine
#[verifier::external_body]
pub fn vx_pairs_bytes<'a>(v: &'a Vec<[u64; 2]>, n: usize) -> (r: &'a [u8])
    requires n <= 16 * v@.len(),
    ensures r@.len() == n,
        forall|i: int| #![trigger v@[i]] 0 <= i && 16 * i + 16 <= n ==> le64(r@.subrange(16 * i, 16 * i + 16).subrange(0, 8)) == v@[i]@[0] && le64(r@.subrange(16 * i, 16 * i + 16).subrange(8, 16)) == v@[i]@[1],
{ unimplemented!() }
pub open spec fn pair_ok(out: Seq<[u64; 2]>, ids: Seq<StringId>, j: int, k: int, a: u64) -> bool {
    0 <= j < k ==> out[j]@[0] == ids[j].0 && out[j]@[1] == a
}
/// entries (ids[0], a), (ids[1], a), .. are appended to the index, in one write
pub open spec fn bulk_entries(b: Seq<u8>, ids: Seq<StringId>, a: Addr) -> bool {
    b.len() == 16 * ids.len() && forall|i: int| 0 <= i < ids.len() ==> is_index_entry(b.subrange(16 * i, 16 * i + 16), #[trigger] ids[i], a)
}
pub open spec fn bulk_indexed(w0: World, w1: World, ids: Seq<StringId>, a: Addr) -> bool {
    exists|b: Seq<u8>| bulk_entries(b, ids, a) && #[trigger] wrote_bytes(w0, w1, b)
}
pub open spec fn map_each(m: Map<StringId, Addr>, ids: Seq<StringId>, a: Addr) -> Map<StringId, Addr>
    decreases ids.len()
{ if ids.len() == 0 { m } else { map_each(m, ids.drop_last(), a).insert(ids.last(), a) } }
/// C09: a bulk mapping reads back like mapping each id in turn
pub proof fn lemma_bulk_is_each(log: Seq<u8>, b: Seq<u8>, ids: Seq<StringId>, a: Addr)
    requires bulk_entries(b, ids, a),
    ensures index_map(log + b) == map_each(index_map(log), ids, a),
    decreases ids.len()
{
    if ids.len() == 0 { assert(log + b =~= log); } else {
        let n = ids.len() - 1;
        let c = b.subrange(0, 16 * n);
        let e = b.subrange(16 * n, 16 * n + 16);
        assert(is_index_entry(e, ids[n], a));
        lemma_bulk_prefix(b, ids, a);
        lemma_bulk_is_each(log, c, ids.drop_last(), a);
        lemma_index_push(log + c, e);
        assert(log + b =~= (log + c) + e);
    }
}
proof fn lemma_bulk_prefix(b: Seq<u8>, ids: Seq<StringId>, a: Addr)
    requires bulk_entries(b, ids, a), ids.len() > 0,
    ensures bulk_entries(b.subrange(0, 16 * (ids.len() - 1)), ids.drop_last(), a)
{
    hide(is_index_entry);
    let n = ids.len() - 1;
    let c = b.subrange(0, 16 * n);
    assert forall|i: int| 0 <= i < n implies is_index_entry(c.subrange(16 * i, 16 * i + 16), #[trigger] ids.drop_last()[i], a) by {
        assert(c.subrange(16 * i, 16 * i + 16) =~= b.subrange(16 * i, 16 * i + 16));
        assert(ids[i] == ids.drop_last()[i]);
    }
}
/// exactly one entry (id, addr) is appended to the index
pub open spec fn indexed(w0: World, w1: World, id: StringId, a: Addr) -> bool {
    exists|e: Seq<u8>| is_index_entry(e, id, a) && #[trigger] wrote_bytes(w0, w1, e)
}
/// every index entry bytes exist
pub proof fn lemma_index_exists(id: StringId, a: Addr)
    ensures is_index_entry(index_bytes(id, a), id, a)
{
    let e = le_bytes(id.0 as nat, 8) + le_bytes(a.0 as nat, 8);
    lemma_le_bytes(id.0);
    lemma_le_bytes(a.0);
    assert(e.subrange(0, 8) =~= le_bytes(id.0 as nat, 8));
    assert(e.subrange(8, 16) =~= le_bytes(a.0 as nat, 8));
    assert(is_index_entry(e, id, a));
}
pub open spec fn le_bytes(x: nat, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::<u8>::empty() } else { seq![(x % 256) as u8] + le_bytes(x / 256, (n - 1) as nat) } }
pub proof fn lemma_le_bytes(x: u64)
    ensures le_bytes(x as nat, 8).len() == 8, le64(le_bytes(x as nat, 8)) == x
{
    reveal_with_fuel(le_bytes, 9);
    let s = le_bytes(x as nat, 8);
    let x1 = x as nat / 256; let x2 = x1 / 256; let x3 = x2 / 256; let x4 = x3 / 256; let x5 = x4 / 256; let x6 = x5 / 256; let x7 = x6 / 256;
    assert(s =~= seq![(x as nat % 256) as u8, (x1 % 256) as u8, (x2 % 256) as u8, (x3 % 256) as u8, (x4 % 256) as u8, (x5 % 256) as u8, (x6 % 256) as u8, (x7 % 256) as u8]);
    assert(le32(s.subrange(0, 4)) == s[0] + 256 * s[1] + 65536 * (s[2] + 256 * s[3]));
    assert(le32(s.subrange(4, 8)) == s[4] + 256 * s[5] + 65536 * (s[6] + 256 * s[7]));
}
pub proof fn lemma_entry_exists(cs: Seq<Piece>)
    ensures is_entry(entry_bytes(cs), cs), entry_bytes(cs).len() == pieces_len(cs) + 1,
{
    let b = lemma_pieces_exist(cs);
    let e = b.push(0xFFu8);
    assert(e.drop_last() =~= b);
    assert(is_entry(e, cs));
    let f = entry_bytes(cs);
    lemma_pieces_len(f.drop_last(), cs);
}
proof fn lemma_pieces_exist(cs: Seq<Piece>) -> (b: Seq<u8>)
    ensures is_pieces(b, cs),
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else {
        let r = lemma_pieces_exist(cs.drop_first());
        let h = match cs[0] { Piece::Value(s) => s, Piece::Ref(id) => { lemma_le_bytes(id); seq![0xFEu8] + le_bytes(id as nat, 8) } };
        let b = h + r;
        assert(b.subrange(0, h.len() as int) =~= h);
        assert(b.subrange(h.len() as int, b.len() as int) =~= r);
        match cs[0] { Piece::Ref(id) => { assert(h.subrange(1, 9) =~= le_bytes(id as nat, 8)); }, _ => {} }
        b
    }
}

//@item measureme/src/stringtable.rs :: fn serialize_index_entry
//@params Tracked(w): Tracked<&mut World>
//@rw sink . write_bytes_atomic ( $$x ) ==> { proof { assert ( is_index_entry ( ( $x ) @ , vx_id , vx_addr ) ) ; lemma_index_unique ( ( $x ) @ , vx_id , vx_addr ) ; } sink . write_bytes_atomic ( $x , Tracked ( & mut * w ) ) }
//@rw sink . write_atomic ( $$n , | $p:id | $body ) ==> sink . write_atomic ( $n , | $p : & mut [ u8 ] | requires old ( $p )@ . len ( ) == 16 ensures final ( $p )@ == vx_e { $body proof { assert ( is_index_entry ( $p @ , vx_id , vx_addr ) ) ; lemma_index_unique ( $p @ , vx_id , vx_addr ) ; } } , Tracked ( & mut * w ) , Ghost ( vx_e ) )
//@spec
    requires sink.id() == old(w).sink,
    ensures indexed(*old(w), *final(w), id, addr), //# C09
//@start
    let ghost vx_id = id;
    let ghost vx_addr = addr;
    let ghost vx_e = index_bytes(id, addr);
    proof { lemma_index_exists(id, addr); }
//@end

impl StringTableBuilder {
//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn new
//@params Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>
//@ret r
//@spec
    requires data_sink.id() == old(w).sink, index_sink.id() == old(wi).sink,
        old(w).excl, old(wi).excl, old(w).log.len() == 0, old(wi).log.len() == 0,
    ensures
        r matches Ok(b) ==> b.data_sink == data_sink && b.index_sink == index_sink,
        r is Ok ==> header_ok(final(w).log, FILE_MAGIC_STRINGTABLE_DATA@) && final(w).log.len() == 8, //# C11, C08
        r is Ok ==> header_ok(final(wi).log, FILE_MAGIC_STRINGTABLE_INDEX@) && final(wi).log.len() == 8, //# C11, C09
        r is Ok ==> final(w).sink == old(w).sink && final(wi).sink == old(wi).sink,
//@tail vx_ret
    assert(w.log.subrange(0, w.log.len() as int) =~= w.log);
    assert(wi.log.subrange(0, wi.log.len() as int) =~= wi.log);
//@end

//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn map_virtual_to_concrete_string
//@params Tracked(wi): Tracked<&mut World>
//@spec
    requires self.index_sink.id() == old(wi).sink, user_virtual(virtual_id.0), concrete(concrete_id.0),
    ensures indexed(*old(wi), *final(wi), virtual_id, Addr((concrete_id.0 - FIRST_REGULAR_STRING_ID) as u64)), //# C09
//@end
//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn map_virtual_to_concrete_string
//@name map_virtual_to_concrete_string_rejects
//@params Tracked(wi): Tracked<&mut World>
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@rw $x:recv . to_addr ( ) ==> $x . to_addr_rejects ( )
//@spec
    requires self.index_sink.id() == old(wi).sink,
    ensures user_virtual(virtual_id.0), concrete(concrete_id.0), //# C09
//@end

//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn alloc
//@params Tracked(w): Tracked<&mut World>
//@rw self . data_sink . write_atomic ( $$n , | $p:id | $body ) ==> self . data_sink . write_atomic ( $n , | $p : & mut [ u8 ] | requires old ( $p )@ . len ( ) == vx_n ensures final ( $p )@ == vx_e { $body proof { lemma_entry_unique ( $p @ , vx_e , vx_cs ) ; } } , Tracked ( & mut * w ) , Ghost ( vx_e ) )
//@ret r
//@spec
    requires self.data_sink.id() == old(w).sink, pieces_len(s.pieces()) < 0x7fff_ffff_ffff_ffff,
    ensures
        is_entry(entry_bytes(s.pieces()), s.pieces()), //# C08
        wrote_bytes(*old(w), *final(w), entry_bytes(s.pieces())), //# C08
        r.0 == final(w).at_lock.len() + FIRST_REGULAR_STRING_ID, //# C08, C09
//@start
    let ghost vx_cs = s.pieces();
    let ghost vx_e = entry_bytes(vx_cs);
    let ghost vx_n = pieces_len(vx_cs) + 1;
    proof { lemma_entry_exists(vx_cs); }
//@end

//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn alloc_metadata
//@params Tracked(w): Tracked<&mut World>, Tracked(wi): Tracked<&mut World>
//@spec
    requires self.data_sink.id() == old(w).sink, self.index_sink.id() == old(wi).sink, pieces_len(s.pieces()) < 0x7fff_ffff_ffff_ffff,
    ensures
        wrote_bytes(*old(w), *final(w), entry_bytes(s.pieces())), //# C08
        indexed(*old(wi), *final(wi), StringId(METADATA_STRING_ID), Addr(final(w).at_lock.len() as u64)), //# C09
//@end

//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn bulk_map_virtual_to_single_concrete_string
//@generics
//@where -
//@rwsig virtual_ids : I ==> virtual_ids : Vec < StringId >
//@params Tracked(wi): Tracked<&mut World>
//@rw $x:id . map ( | $f:id | $body ) . collect ( ) ==> { let mut out : Vec < [ u64 ; 2 ] > = Vec :: new ( ) ; let mut k : usize = 0 ; # [ verifier :: loop_isolation ( false ) ] while k < $x . len ( ) invariant k <= $x @ . len ( ) , out @ . len ( ) == k , forall | j : int | pair_ok ( out @ , $x @ , j , k as int , vx_addr ) decreases $x @ . len ( ) - k { let $f = $x [ k ] ; let e = $body ; let ghost vx_o = out @ ; out . push ( e ) ; proof { assert ( e @ [ 0 ] == $x @ [ k as int ] . 0 && e @ [ 1 ] == vx_addr ) ; assert forall | j : int | # [ trigger ] pair_ok ( out @ , $x @ , j , k + 1 , vx_addr ) by { assert ( pair_ok ( vx_o , $x @ , j , k as int , vx_addr ) ) ; } } k = k + 1 ; } proof { axiom_pairs_len ( & out ) ; } out }
//@spec
    requires self.index_sink.id() == old(wi).sink, concrete(concrete_id.0),
        forall|i: int| 0 <= i < virtual_ids@.len() ==> user_virtual(#[trigger] virtual_ids@[i].0),
    ensures bulk_indexed(*old(wi), *final(wi), virtual_ids@, Addr((concrete_id.0 - FIRST_REGULAR_STRING_ID) as u64)), //# C09
//@start
    let ghost vx_ids = virtual_ids@;
    let ghost vx_addr = (concrete_id.0 - FIRST_REGULAR_STRING_ID) as u64;
//@finish
    proof {
        assert forall|i: int| 0 <= i < vx_ids.len() implies is_index_entry(bytes@.subrange(16 * i, 16 * i + 16), #[trigger] vx_ids[i], Addr(vx_addr)) by {
            let p = serialized@[i];
            assert(pair_ok(serialized@, vx_ids, i, vx_ids.len() as int, vx_addr));
            assert(p@[0] == vx_ids[i].0 && p@[1] == vx_addr);
        }
        assert(bulk_entries(bytes@, vx_ids, Addr(vx_addr)));
    }
//@end

//@item measureme/src/stringtable.rs :: impl StringTableBuilder :: fn bulk_map_virtual_to_single_concrete_string
//@name bulk_map_rejects
//@generics
//@where -
//@rwsig virtual_ids : I ==> virtual_ids : Vec < StringId >
//@params Tracked(wi): Tracked<&mut World>
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@rw $x:recv . to_addr ( ) ==> $x . to_addr_rejects ( )
//@rw $x:id . map ( | $f:id | $body ) . collect ( ) ==> { let mut out : Vec < [ u64 ; 2 ] > = Vec :: new ( ) ; let mut k : usize = 0 ; # [ verifier :: loop_isolation ( false ) ] while k < $x . len ( ) invariant k <= $x @ . len ( ) , out @ . len ( ) == k , forall | j : int | # [ trigger ] uv_ok ( $x @ , j , k as int ) decreases $x @ . len ( ) - k { let $f = $x [ k ] ; let e = $body ; out . push ( e ) ; proof { assert forall | j : int | # [ trigger ] uv_ok ( $x @ , j , k + 1 ) by { assert ( uv_ok ( $x @ , j , k as int ) ) ; } } k = k + 1 ; } proof { axiom_pairs_len ( & out ) ; } out }
//@spec
    requires self.index_sink.id() == old(wi).sink,
    ensures concrete(concrete_id.0), forall|i: int| 0 <= i < virtual_ids@.len() ==> user_virtual(#[trigger] virtual_ids@[i].0), //# C09
//@start
    let ghost vx_ids = virtual_ids@;
//@finish
    proof {
        assert forall|i: int| 0 <= i < vx_ids.len() implies user_virtual(#[trigger] vx_ids[i].0) by { assert(uv_ok(vx_ids, i, vx_ids.len() as int)); }
    }
//@end
}
pub open spec fn uv_ok(ids: Seq<StringId>, j: int, k: int) -> bool { 0 <= j < k ==> user_virtual(ids[j].0) }

// ---- C08 / C09 end to end ------------------------------------------------------------------------------------------
/// what is written later never changes the text of an id (as long as the index keeps its mappings)
pub proof fn lemma_text_stable(d: Seq<u8>, e: Seq<u8>, ix: Map<StringId, Addr>, id: StringId, p: int, f: nat)
    requires prefix(d, e),
    ensures
        text_id(d, ix, id, f) is Some ==> text_id(e, ix, id, f) == text_id(d, ix, id, f),
        text_at(d, ix, p, f) is Some ==> text_at(e, ix, p, f) == text_at(d, ix, p, f),
    decreases f
{
    lemma_at_stable(d, e, ix, p, f);
    match resolve(ix, id) { Some(a) => lemma_at_stable(d, e, ix, a, f), None => {} }
}
proof fn lemma_at_stable(d: Seq<u8>, e: Seq<u8>, ix: Map<StringId, Addr>, p: int, f: nat)
    requires prefix(d, e),
    ensures text_at(d, ix, p, f) is Some ==> text_at(e, ix, p, f) == text_at(d, ix, p, f),
    decreases f
{
    if text_at(d, ix, p, f) is Some {
        assert forall|i: int| 0 <= i < d.len() implies d[i] == e[i] by { assert(e.subrange(0, d.len() as int)[i] == e[i]); }
        if f > 0 && d[p] != 0xFF {
            let g = (f - 1) as nat;
            if d[p] == 0xFE {
                assert(d.subrange(p + 1, p + 9) =~= e.subrange(p + 1, p + 9));
                let id = StringId(le64(d.subrange(p + 1, p + 9)) as u64);
                lemma_at_stable(d, e, ix, p + 9, g);
                assert(text_id(d, ix, id, g) is Some);
                match resolve(ix, id) { Some(a) => lemma_at_stable(d, e, ix, a, g), None => {} }
                assert(text_id(d, ix, id, g) == text_id(e, ix, id, g));
            } else {
                let r = d.subrange(p, d.len() as int);
                let s = e.subrange(p, e.len() as int);
                let n = first_pos(r, is_mark());
                lemma_first_pos(r, is_mark());
                assert forall|i: int| 0 <= i < n implies !is_mark()(#[trigger] s[i]) by { assert(s[i] == r[i]); }
                assert(s[n] == r[n]);
                lemma_first_pos_unique(s, is_mark(), n);
                assert(r.subrange(0, n) =~= s.subrange(0, n));
                lemma_at_stable(d, e, ix, p + n, g);
            }
        }
    }
}
/// whatever follows an `alloc`, reading its id yields the concatenation of the pieces' texts
pub proof fn lemma_alloc_reads_back(w0: World, w1: World, id: StringId, cs: Seq<Piece>, d: Seq<u8>, ix: Map<StringId, Addr>, f: nat)
    requires
        is_entry(entry_bytes(cs), cs), wrote_bytes(w0, w1, entry_bytes(cs)), id.0 == w1.at_lock.len() + FIRST_REGULAR_STRING_ID,
        prefix(w1.log, d),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i] matches Piece::Value(s) ==> valid_utf8(s)),
        pieces_text(d, ix, cs, f) is Some,
    ensures text_id(d, ix, id, f + cs.len()) == pieces_text(d, ix, cs, f), //# C08
{
    let a = w1.at_lock.len() as int;
    let b = entry_bytes(cs);
    assert(d.subrange(a, a + b.len()) =~= b) by {
        assert forall|i: int| 0 <= i < b.len() implies d[a + i] == b[i] by { assert(d.subrange(0, w1.log.len() as int)[a + i] == d[a + i]); assert(w1.log[a + i] == b[i]); }
    }
    lemma_stored_text(d, ix, a, b.len() as int, cs, f);
}
/// the literal pieces of a StringComponent are UTF-8
pub proof fn lemma_values_utf8(cs: Seq<StringComponent<'_>>)
    ensures forall|i: int| 0 <= i < cs.len() ==> (#[trigger] pieces_of(cs)[i] matches Piece::Value(s) ==> valid_utf8(s)),
{
    assert forall|i: int| 0 <= i < cs.len() implies (#[trigger] pieces_of(cs)[i] matches Piece::Value(s) ==> valid_utf8(s)) by {
        match cs[i] { StringComponent::Value(s) => { encode_utf8_valid_utf8(s@); }, _ => {} }
    }
}
/// C09: after `map_virtual_to_concrete_string` the index as read maps the id to the string's address
pub proof fn lemma_mapping_reads_back(w0: World, w1: World, id: StringId, a: Addr, other: StringId)
    requires indexed(w0, w1, id, a), user_virtual(id.0) || id.0 == METADATA_STRING_ID, w0.excl,
    ensures
        resolve(index_map(w1.log), id) == Some(a.0 as int), //# C09
        other != id ==> resolve(index_map(w1.log), other) == resolve(index_map(w0.log), other), //# C09
{
    let e = choose|e: Seq<u8>| is_index_entry(e, id, a) && #[trigger] wrote_bytes(w0, w1, e);
    lemma_mapped(w0.log, e, other);
}
} // verus!
