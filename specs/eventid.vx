// C10: event ids
//@include _base.vx
//@include _text.vx
//@include _fxmap.vx
//@include _addr.vx
//@include _strid.vx
//@include _strtext.vx
//@include _eventspec.vx
fn main() {}
//@grw eprintln ! $x ; ==>
//@grw debug_assert ! ( $$c ) ==> assert ! ( $c )
//@grw measureme :: event_id :: ==>
verus! {
//@item measureme/src/event_id.rs :: const SEPARATOR_BYTE
//@rw SEPARATOR_BYTE ==> SEP_STR
//@rw & str ==> & 'static str
//@end
pub const SEP_BYTE: u8 = 0x1E;
//@item decodeme/src/event.rs :: const SEPARATOR_BYTE
//@rw measureme :: event_id :: SEPARATOR_BYTE . as_bytes ( ) [ 0 ] ==> SEP_BYTE
//@rw SEPARATOR_BYTE . as_bytes ( ) [ 0 ] ==> SEP_BYTE
//@end
} // verus!
verus! {
// ---- UTF-8 text may be cut at ASCII bytes ----------------------------------------------------------------------------
pub proof fn lemma_cont(b: u8)
    by (bit_vector)
    ensures b < 0x80 ==> (b & 0x80 == 0 && b & 0xC0 != 0x80 && b & 0xE0 != 0xC0 && b & 0xF0 != 0xE0 && b & 0xF8 != 0xF0)
{}
pub proof fn lemma_cut(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(), i < b.len() ==> b[i] < 0x80u8,
    ensures valid_utf8(b.subrange(0, i)), valid_utf8(b.subrange(i, b.len() as int)),
    decreases b.len()
{
    reveal_with_fuel(valid_utf8, 2);
    if i == 0 {
        assert(b.subrange(0, 0) =~= Seq::<u8>::empty());
        assert(b.subrange(0, b.len() as int) =~= b);
    } else if i == b.len() {
        assert(b.subrange(0, i) =~= b);
        assert(b.subrange(i, i) =~= Seq::<u8>::empty());
    } else {
        let n = length_of_first_scalar(b);
        let r = pop_first_scalar(b);
        lemma_cont(b[i]);
        assert(1 <= n <= 4);
        assert(i >= n);
        lemma_cut(r, i - n);
        let h = b.subrange(0, i);
        assert(r.subrange(i - n, r.len() as int) =~= b.subrange(i, b.len() as int));
        assert(h[0] == b[0]);
        assert(n > 1 ==> h[1] == b[1]);
        assert(n > 2 ==> h[2] == b[2]);
        assert(n > 3 ==> h[3] == b[3]);
        assert(length_of_first_scalar(h) == n);
        assert(pop_first_scalar(h) =~= r.subrange(0, i - n));
        assert(valid_utf8(h));
    }
}
pub proof fn lemma_sub_utf8(b: Seq<u8>, s: int, e: int)
    requires valid_utf8(b), 0 <= s <= e <= b.len(), s == 0 || b[s - 1] < 0x80u8, e == b.len() || b[e] < 0x80u8,
    ensures valid_utf8(b.subrange(s, e)),
{
    lemma_cut(b, e);
    let h = b.subrange(0, e);
    if s > 0 {
        lemma_cut(h, s - 1);
        let t = h.subrange(s - 1, e as int);
        reveal_with_fuel(valid_utf8, 2);
        lemma_cont(t[0]);
        assert(length_of_first_scalar(t) == 1);
        assert(pop_first_scalar(t) =~= b.subrange(s, e));
    } else {
        assert(h =~= b.subrange(0, e));
    }
}

// ---- the parser ------------------------------------------------------------------------------------------------------
/// u8::is_ascii_whitespace / is_ascii_control
pub fn vx_is_ws(x: u8) -> (r: bool) ensures r == (x == 0x20 || x == 9 || x == 0xa || x == 0xc || x == 0xd) { x == 0x20 || x == 9 || x == 0xa || x == 0xc || x == 0xd }
pub fn vx_is_ctrl(x: u8) -> (r: bool) ensures r == (x < 0x20 || x == 0x7f) { x < 0x20 || x == 0x7f }
#[verifier::external_body]
pub fn vx_bytes_to_owned(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }

//@grw $x:recv . is_ascii_whitespace ( ) ==> vx_is_ws ( vx_byte ( $x ) )
//@grw $x:recv . is_ascii_control ( ) ==> vx_is_ctrl ( vx_byte ( $x ) )
//@grw . any ( u8 :: is_ascii_control ) ==> . any ( | vx_c | vx_is_ctrl ( * vx_c ) )
//@grw $x:place . iter ( ) . filter ( | $a:id | $$f ) . any ( | $b:id | $$g ) ==> { let vx_s = & $x ; let mut vx_r = false ; let mut vx_i : usize = 0 ; while vx_i < vx_s . len ( ) invariant vx_i <= vx_s@ . len ( ) , vx_r == has_bad ( vx_s@ , vx_i as int ) , decreases vx_s@ . len ( ) - vx_i , { let vx_e = & vx_s [ vx_i ] ; let $a = & vx_e ; if $f { let $b = vx_e ; if $g { vx_r = true ; } } vx_i = vx_i + 1 ; } vx_r }
//@grw $x:place . iter ( ) . any ( | $b:id | $$g ) ==> { let vx_s = & $x ; let mut vx_r = false ; let mut vx_i : usize = 0 ; while vx_i < vx_s . len ( ) invariant vx_i <= vx_s@ . len ( ) , vx_r == has_bad ( vx_s@ , vx_i as int ) , decreases vx_s@ . len ( ) - vx_i , { let $b = & vx_s [ vx_i ] ; if $g { vx_r = true ; } vx_i = vx_i + 1 ; } vx_r }
//@grw $x:place . iter ( ) . any ( | $b:id : & u8 | $$g ) ==> { let vx_s = & $x ; let mut vx_r = false ; let mut vx_i : usize = 0 ; while vx_i < vx_s . len ( ) invariant vx_i <= vx_s@ . len ( ) , vx_r == has_bad ( vx_s@ , vx_i as int ) , decreases vx_s@ . len ( ) - vx_i , { let $b : & u8 = & vx_s [ vx_i ] ; if $g { vx_r = true ; } vx_i = vx_i + 1 ; } vx_r }
//@grw . full_text [ $$i ] ==> . full_text . vx_deref ( ) [ $i ]
//@grw memchr ( $$a ) . map ( | $p:id | $$e ) . unwrap_or ( $$d ) ==> ( match memchr ( $a ) { Some ( $p ) => $e , None => $d } )
//@grw return self . err ( $$m ) ; ==> { let vx_e = self . err ( $m ) ; return vx_e ; }
//@grw & format ! ( $$m ) ==> vx_str ( )
#[verifier::external_body]
pub fn vx_str() -> &'static str { unimplemented!() }
pub open spec fn has_bad(b: Seq<u8>, n: int) -> bool { !no_bad(b, 0, n) }
pub trait VxByte { spec fn b(&self) -> u8; fn get(&self) -> (r: u8) ensures r == self.b(); }
impl VxByte for u8 { open spec fn b(&self) -> u8 { *self } fn get(&self) -> (r: u8) { *self } }
impl<'a> VxByte for &'a u8 { open spec fn b(&self) -> u8 { **self } fn get(&self) -> (r: u8) { **self } }
impl<'a, 'b> VxByte for &'a &'b u8 { open spec fn b(&self) -> u8 { ***self } fn get(&self) -> (r: u8) { ***self } }
pub fn vx_byte<T: VxByte>(t: T) -> (r: u8) ensures r == t.b() { t.get() }

//@item decodeme/src/event.rs :: struct Parser
//@end
pub open spec fn parser_ok(p: Parser<'_>) -> bool { valid_utf8(p.full_text@) && p.pos <= p.full_text@.len() <= 0x7fff_ffff_ffff_ffff }
impl<'a> Parser<'a> {
//@item decodeme/src/event.rs :: impl Parser :: fn new
//@ret r
//@spec
    ensures r.full_text == full_text, r.pos == 0, //# C10
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn peek
//@ret r
//@spec
    requires parser_ok(*self), self.pos < self.full_text@.len(),
    ensures r == self.full_text@[self.pos as int], //# C10
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn err
//@rw format ! ( $$a , std :: str :: from_utf8 ( $$x ) . unwrap ( ) ) ==> { let vx_t = std :: str :: from_utf8 ( $x ) . unwrap ( ) ; vx_string ( ) }
//@ret r
//@spec
    requires parser_ok(*self),
    ensures r is Err, //# C10
//@start
    proof { assert(self.full_text@.subrange(0, self.full_text@.len() as int) =~= self.full_text@); }
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn substring
//@rw match self . full_text ==> match & self . full_text
//@rw s [ start .. end ] . to_owned ( ) ==> vx_bytes_to_owned ( & s [ start .. end ] )
//@ret r
//@spec
    requires parser_ok(*self), start <= end <= self.full_text@.len(),
        start == 0 || self.full_text@[start - 1] < 0x80u8, end == self.full_text@.len() || self.full_text@[end as int] < 0x80u8,
    ensures encode_utf8(r@) == self.full_text@.subrange(start as int, end as int), //# C10
//@start
    proof { lemma_sub_utf8(self.full_text@, start as int, end as int); }
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn parse_separator_terminated_text
//@ret r
//@spec
    requires parser_ok(*old(self)), old(self).pos == 0 || old(self).full_text@[old(self).pos - 1] == 0x1E,
    ensures
        final(self).full_text == old(self).full_text, parser_ok(*final(self)),
        r is Ok == ok_text(old(self).full_text@, old(self).pos as int, seg_end(old(self).full_text@, old(self).pos as int)), //# C10
        r matches Ok(t) ==> encode_utf8(t@) == old(self).full_text@.subrange(old(self).pos as int, seg_end(old(self).full_text@, old(self).pos as int)), //# C10
        r is Ok ==> final(self).pos == seg_end(old(self).full_text@, old(self).pos as int), //# C10
//@before if
    proof {
        let b = self.full_text@;
        let s = b.subrange(start as int, b.len() as int);
        assert forall|i: int| start <= i < end implies #[trigger] b[i] != 0x1E by { assert(s[i - start] == b[i]); }
        if end < b.len() { assert(s[end - start] == b[end as int]); }
        lemma_seg_end_unique(b, start as int, end as int);
        let t = b.subrange(start as int, end as int);
        if no_bad(t, 0, t.len() as int) {
            assert forall|i: int| start <= i < end implies !bad_ctrl(#[trigger] b[i]) by { assert(t[i - start] == b[i]); }
        }
        if no_bad(b, start as int, end as int) {
            assert forall|i: int| 0 <= i < t.len() implies !bad_ctrl(#[trigger] t[i]) by { assert(b[i + start] == t[i]); }
        }
    }
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn parse_label
//@ret r
//@spec
    requires parser_ok(*old(self)), old(self).pos == 0,
    ensures
        final(self).full_text == old(self).full_text, parser_ok(*final(self)),
        r is Ok == event_label(old(self).full_text@) is Some, //# C10
        r matches Ok(t) ==> event_label(old(self).full_text@) == Some(encode_utf8(t@)), //# C10
        r is Ok ==> final(self).pos == seg_end(old(self).full_text@, 0), //# C10
//@end
//@item decodeme/src/event.rs :: impl Parser :: fn parse_arg
//@ret r
//@spec
    requires parser_ok(*old(self)), old(self).pos < old(self).full_text@.len(),
    ensures
        final(self).full_text == old(self).full_text, parser_ok(*final(self)),
        r matches Ok(t) ==> parse_args(old(self).full_text@, old(self).pos as int) == seq![encode_utf8(t@)] + parse_args(old(self).full_text@, final(self).pos as int), //# C10
        r is Ok ==> final(self).pos > old(self).pos,
        r is Err ==> parse_args(old(self).full_text@, old(self).pos as int) == Seq::<Seq<u8>>::empty(), //# C10
//@end
}
#[verifier::external_body]
pub struct EventPayload { x: u8 }
//@item decodeme/src/event.rs :: struct Event
//@end
} // verus!
//@include _parse.vx
verus! {
pub axiom fn axiom_cow_len(c: &Cow<'_, [u8]>) ensures c@.len() <= 0x7fff_ffff_ffff_ffff;
} // verus!
verus! {
// ---- composing event ids ---------------------------------------------------------------------------------------------
//@item measureme/src/stringtable.rs :: enum StringComponent
//@end
pub open spec fn piece(c: StringComponent<'_>) -> Piece {
    match c { StringComponent::Value(s) => Piece::Value(encode_utf8(s@)), StringComponent::Ref(id) => Piece::Ref(id.0) }
}
pub open spec fn pieces_of(cs: Seq<StringComponent<'_>>) -> Seq<Piece> { cs.map_values(|c: StringComponent<'_>| piece(c)) }
/// `alloc_string` forwards to `StringTableBuilder::alloc`: the returned id belongs to an entry made of these pieces (unit strwrite)
#[verifier::external_body]
pub struct Profiler { x: u8 }
impl Profiler {
    pub uninterp spec fn allocated(&self, id: StringId, cs: Seq<Piece>) -> bool;
    #[verifier::external_body]
    pub fn alloc_string<'a>(&self, s: &[StringComponent<'a>]) -> (r: StringId) ensures self.allocated(r, pieces_of(s@)) { unimplemented!() }
}
/// label, then a separator and the argument for every argument
pub open spec fn event_pieces(label: StringId, args: Seq<StringId>) -> Seq<Piece> { seq![Piece::Ref(label.0)] + arg_pieces(args) }
pub open spec fn arg_pieces(args: Seq<StringId>) -> Seq<Piece> {
    Seq::new(2 * args.len(), |i: int| if i % 2 == 0 { Piece::Value(seq![0x1Eu8]) } else { Piece::Ref(args[i / 2].0) })
}
} // verus!
//@include _eventidty.vx
verus! {
impl EventId {
//@item measureme/src/event_id.rs :: impl EventId :: fn as_u64
//@ret r
//@spec
    ensures r == self.0.0, //# C10
//@end
//@item measureme/src/event_id.rs :: impl EventId :: fn from_label
//@ret r
//@spec
    ensures r.0 == label, //# C10
//@end
//@item measureme/src/event_id.rs :: impl EventId :: fn from_virtual
//@ret r
//@spec
    ensures r.0 == virtual_id, //# C10
//@end
//@item measureme/src/event_id.rs :: impl EventId :: fn from_u64
//@ret r
//@spec
    ensures r.0.0 == raw_id, //# C10
//@end
}
//@item measureme/src/event_id.rs :: struct EventIdBuilder
//@end
//@grw SmallVec :: < $$t > :: with_capacity ( $$n ) ==> Vec :: with_capacity ( $n )
pub axiom fn axiom_ids_len(s: &[StringId]) ensures s@.len() <= 0x0fff_ffff_ffff_ffff;
impl<'p> EventIdBuilder<'p> {
//@item measureme/src/event_id.rs :: impl EventIdBuilder :: fn new
//@ret r
//@spec
    ensures *r.profiler == *profiler, //# C10
//@end
//@item measureme/src/event_id.rs :: impl EventIdBuilder :: fn from_label
//@ret r
//@spec
    ensures r.0 == label, //# C10
//@end
//@item measureme/src/event_id.rs :: impl EventIdBuilder :: fn from_label_and_arg
//@rw SEPARATOR_BYTE ==> SEP_STR
//@ret r
//@spec
    ensures self.profiler.allocated(r.0, event_pieces(label, seq![arg])), //# C10
//@start
    proof { lemma_sep(); }
    let ghost vx_p = *self.profiler;
    assert forall|cs: Seq<StringComponent<'_>>| #![trigger pieces_of(cs)] cs.len() == 3 && piece(cs[0]) == Piece::Ref(label.0) && piece(cs[1]) == Piece::Value(seq![0x1Eu8]) && piece(cs[2]) == Piece::Ref(arg.0)
        implies pieces_of(cs) == event_pieces(label, seq![arg]) by { assert(pieces_of(cs) =~= event_pieces(label, seq![arg])); }
//@end
//@item measureme/src/event_id.rs :: impl EventIdBuilder :: fn from_label_and_args
//@rw SEPARATOR_BYTE ==> SEP_STR
//@ret r
//@spec
    ensures self.profiler.allocated(r.0, event_pieces(label, args@)), //# C10
//@start
    proof { lemma_sep(); axiom_ids_len(args); }
//@rw for & $v:id in $i:id : $e:id $inv $body ==> for vx_r in $i : $e $inv { let $v = * vx_r ; $body }
//@loopbind 0 it
//@loop 0
    invariant
        encode_utf8(SEP_STR@) == seq![0x1Eu8],
        pieces_of(parts@) == event_pieces(label, args@.subrange(0, it.index@)),
//@loopstart 0
    let ghost parts0 = parts@;
    let ghost k = it.index@;
//@loopend 0
    proof {
        assert(pieces_of(parts@) =~= pieces_of(parts0) + seq![Piece::Value(seq![0x1Eu8]), Piece::Ref(args@[k].0)]);
        assert(event_pieces(label, args@.subrange(0, k + 1)) =~= event_pieces(label, args@.subrange(0, k)) + seq![Piece::Value(seq![0x1Eu8]), Piece::Ref(args@[k].0)]);
    }
//@before EventId
    proof {
        assert(parts@.subrange(0, parts@.len() as int) =~= parts@);
        assert(args@.subrange(0, args@.len() as int) =~= args@);
    }
//@end
}
pub proof fn lemma_sep()
    ensures encode_utf8(SEP_STR@) == seq![0x1Eu8], //# C10
{
    reveal_strlit("\x1E");
    assert(is_ascii_chars(SEP_STR@));
    is_ascii_chars_encode_utf8(SEP_STR@);
    assert(encode_utf8(SEP_STR@) =~= seq![0x1Eu8]);
}

// ---- C10 end to end: what EventIdBuilder composes, decodes to exactly the label and the arguments -------------------
/// all texts are non-empty and free of bad control characters
pub open spec fn good(t: Seq<u8>) -> bool { t.len() > 0 && no_bad(t, 0, t.len() as int) }
pub open spec fn args_text(xs: Seq<Seq<u8>>) -> Seq<u8>
    decreases xs.len()
{ if xs.len() == 0 { Seq::empty() } else { seq![0x1Eu8] + xs[0] + args_text(xs.drop_first()) } }
pub proof fn lemma_parse_args(b: Seq<u8>, p: int, xs: Seq<Seq<u8>>)
    requires 0 <= p <= b.len(), b.subrange(p, b.len() as int) == args_text(xs), forall|i: int| 0 <= i < xs.len() ==> good(#[trigger] xs[i]),
    ensures parse_args(b, p) == xs, p < b.len() ==> b[p] == 0x1E,
    decreases xs.len()
{
    let r = b.subrange(p, b.len() as int);
    if xs.len() > 0 {
        let x = xs[0];
        let rest = args_text(xs.drop_first());
        assert(r.len() == 1 + x.len() + rest.len());
        let e = p + 1 + x.len();
        assert(b[p] == r[0]);
        assert(b.subrange(e, b.len() as int) =~= rest) by {
            assert forall|i: int| 0 <= i < rest.len() implies b[e + i] == rest[i] by { assert(r[1 + x.len() + i] == b[e + i]); }
        }
        assert(b.subrange(p + 1, e) =~= x) by {
            assert forall|i: int| 0 <= i < x.len() implies b[p + 1 + i] == x[i] by { assert(r[1 + i] == b[p + 1 + i]); }
        }
        assert forall|i: int| 0 <= i < xs.drop_first().len() implies good(#[trigger] xs.drop_first()[i]) by { assert(good(xs[i + 1])); }
        lemma_parse_args(b, e, xs.drop_first());
        assert(good(xs[0]));
        assert forall|i: int| p + 1 <= i < e implies !bad_ctrl(#[trigger] b[i]) by { assert(b[i] == x[i - p - 1]); }
        assert forall|i: int| p + 1 <= i < e implies (#[trigger] b[i]) != 0x1E by { assert(!bad_ctrl(b[i])); }
        lemma_seg_end_unique(b, p + 1, e);
        assert(ok_text(b, p + 1, e));
        assert(parse_args(b, p) == seq![b.subrange(p + 1, e)] + parse_args(b, e));
        assert(parse_args(b, p) =~= xs);
    } else {
        assert(r.len() == 0);
        assert(xs =~= Seq::<Seq<u8>>::empty());
    }
}
/// a composed text parses back into exactly its parts
pub proof fn lemma_composed(label: Seq<u8>, xs: Seq<Seq<u8>>)
    requires good(label), forall|i: int| 0 <= i < xs.len() ==> good(#[trigger] xs[i]),
    ensures
        event_label(label + args_text(xs)) == Some(label), //# C10
        event_args(label + args_text(xs)) == xs, //# C10
{
    let b = label + args_text(xs);
    let e = label.len() as int;
    assert(b.subrange(e, b.len() as int) =~= args_text(xs));
    assert(b.subrange(0, e) =~= label);
    lemma_parse_args(b, e, xs);
    assert forall|i: int| 0 <= i < e implies !bad_ctrl(#[trigger] b[i]) by { assert(b[i] == label[i]); }
    assert forall|i: int| 0 <= i < e implies (#[trigger] b[i]) != 0x1E by { assert(!bad_ctrl(b[i])); }
    lemma_seg_end_unique(b, 0, e);
}
/// the text of the pieces is the label followed by the arguments
pub proof fn lemma_arg_pieces_text(d: Seq<u8>, ix: Map<StringId, Addr>, args: Seq<StringId>, xs: Seq<Seq<u8>>, f: nat)
    requires xs.len() == args.len(), forall|i: int| 0 <= i < args.len() ==> #[trigger] text_id(d, ix, args[i], f) == Some(xs[i]),
    ensures pieces_text(d, ix, arg_pieces(args), f) == Some(args_text(xs)),
    decreases args.len()
{
    let ps = arg_pieces(args);
    if args.len() > 0 {
        let a2 = args.drop_first();
        let x2 = xs.drop_first();
        assert forall|i: int| 0 <= i < a2.len() implies #[trigger] text_id(d, ix, a2[i], f) == Some(x2[i]) by { assert(text_id(d, ix, args[i + 1], f) == Some(xs[i + 1])); }
        lemma_arg_pieces_text(d, ix, a2, x2, f);
        assert(ps.drop_first().drop_first() =~= arg_pieces(a2));
        assert(ps[0] == Piece::Value(seq![0x1Eu8]));
        assert(ps.drop_first()[0] == Piece::Ref(args[0].0));
        assert(text_id(d, ix, args[0], f) == Some(xs[0]));
        assert(pieces_text(d, ix, ps.drop_first(), f) == cat(Some(xs[0]), Some(args_text(x2))));
        assert(seq![0x1Eu8] + (xs[0] + args_text(x2)) =~= args_text(xs));
    } else {
        assert(ps =~= Seq::<Piece>::empty());
    }
}
pub proof fn lemma_event_id_reads_back(d: Seq<u8>, ix: Map<StringId, Addr>, label: StringId, args: Seq<StringId>, l: Seq<u8>, xs: Seq<Seq<u8>>, f: nat)
    requires
        xs.len() == args.len(), text_id(d, ix, label, f) == Some(l), good(l),
        forall|i: int| 0 <= i < args.len() ==> #[trigger] text_id(d, ix, args[i], f) == Some(xs[i]),
        forall|i: int| 0 <= i < xs.len() ==> good(#[trigger] xs[i]),
    ensures pieces_text(d, ix, event_pieces(label, args), f) matches Some(b) && event_label(b) == Some(l) && event_args(b) == xs, //# C10
{
    let ps = event_pieces(label, args);
    lemma_arg_pieces_text(d, ix, args, xs, f);
    assert(ps.drop_first() =~= arg_pieces(args));
    assert(ps[0] == Piece::Ref(label.0));
    lemma_composed(l, xs);
}
} // verus!
