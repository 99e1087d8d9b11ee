verus! {
pub open spec fn texts(v: Seq<Cow<'_, str>>) -> Seq<Seq<u8>> { v.map_values(|c: Cow<'_, str>| encode_utf8(c@)) }
impl<'a> Event<'a> {
//@item decodeme/src/event.rs :: impl Event :: fn parse_event_id
//@rw s . into_bytes ( ) ==> vx_into_bytes ( s )
//@ret r
//@spec
    ensures
        event_label(encode_utf8(event_id@)) matches Some(l) ==> encode_utf8(r.0@) == l, //# C10
        event_label(encode_utf8(event_id@)) is None ==> r.0@ == "<parse error>"@, //# C10
        texts(r.1@) == event_args(encode_utf8(event_id@)), //# C10
//@start
    let ghost b = encode_utf8(event_id@);
    proof { encode_utf8_valid_utf8(event_id@); }
//@before let mut parser
    proof { assert(event_id@ == b); axiom_cow_len(&event_id); }
//@before let mut args
    let ghost mut done = Seq::<Seq<u8>>::empty();
    proof { lemma_seg_end(b, 0); }
//@loop 0
    invariant_except_break
        parser_ok(parser), parser.full_text@ == b,
        event_args(b) == texts(args@) + parse_args(b, parser.pos as int),
    ensures
        texts(args@) == event_args(b),
    decreases b.len() - parser.pos,
//@loopstart 0
    let ghost args0 = args@;
    let ghost pos0 = parser.pos as int;
//@loopend 0
    proof {
        assert(texts(args@) =~= texts(args0).push(encode_utf8(args@.last()@)));
        assert(texts(args0) + parse_args(b, pos0) =~= texts(args@) + parse_args(b, parser.pos as int));
    }
//@before break
    proof { assert(texts(args@) + Seq::<Seq<u8>>::empty() =~= texts(args@)); }
//@tail vx_ret
    assert(texts(vx_ret.1@) =~= event_args(b));
//@end
}
} // verus!
