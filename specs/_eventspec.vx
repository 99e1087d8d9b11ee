// The event id grammar over bytes.
verus! {
/// ASCII control characters other than white space (documented grammar: regex([[:^cntrl:]][[:space:]]]+))
pub open spec fn bad_ctrl(x: u8) -> bool { (x < 0x20 && !(9 <= x <= 13)) || x == 0x7f }
pub open spec fn no_bad(b: Seq<u8>, s: int, e: int) -> bool { forall|i: int| s <= i < e ==> !bad_ctrl(#[trigger] b[i]) }
/// b[s..e] is a `<text>`
pub open spec fn ok_text(b: Seq<u8>, s: int, e: int) -> bool { s < e && no_bad(b, s, e) }
/// the next separator at or after s, or the end
pub open spec fn seg_end(b: Seq<u8>, s: int) -> int
    decreases b.len() - s
{
    if s < 0 || s >= b.len() { b.len() as int } else if b[s] == 0x1E { s } else { seg_end(b, s + 1) }
}
/// the longest list of valid arguments, each preceded by a separator, starting at p
pub open spec fn parse_args(b: Seq<u8>, p: int) -> Seq<Seq<u8>>
    decreases b.len() - p via parse_args_dec
{
    if p < 0 || p >= b.len() || b[p] != 0x1E { Seq::empty() }
    else {
        let e = seg_end(b, p + 1);
        if ok_text(b, p + 1, e) { seq![b.subrange(p + 1, e)] + parse_args(b, e) } else { Seq::empty() }
    }
}
#[via_fn]
proof fn parse_args_dec(b: Seq<u8>, p: int) { if 0 <= p < b.len() { lemma_seg_end(b, p + 1); } }
pub proof fn lemma_seg_end(b: Seq<u8>, s: int)
    requires 0 <= s <= b.len(),
    ensures s <= seg_end(b, s) <= b.len(), forall|i: int| s <= i < seg_end(b, s) ==> #[trigger] b[i] != 0x1E,
        seg_end(b, s) < b.len() ==> b[seg_end(b, s)] == 0x1E,
    decreases b.len() - s
{
    if s < b.len() && b[s] != 0x1E { lemma_seg_end(b, s + 1); }
}
pub proof fn lemma_seg_end_unique(b: Seq<u8>, s: int, e: int)
    requires 0 <= s <= e <= b.len(), forall|i: int| s <= i < e ==> #[trigger] b[i] != 0x1E, e < b.len() ==> b[e] == 0x1E,
    ensures seg_end(b, s) == e,
    decreases b.len() - s
{
    if s < e { assert(b[s] != 0x1E); lemma_seg_end_unique(b, s + 1, e); }
}
/// label and arguments of an event id text, None if the label is not valid
pub open spec fn event_label(b: Seq<u8>) -> Option<Seq<u8>> {
    let e = seg_end(b, 0);
    if ok_text(b, 0, e) { Some(b.subrange(0, e)) } else { None }
}
pub open spec fn event_args(b: Seq<u8>) -> Seq<Seq<u8>> {
    if event_label(b) is Some { parse_args(b, seg_end(b, 0)) } else { Seq::empty() }
}
} // verus!
