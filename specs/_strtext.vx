verus! {
// ---- what the text of an id is (specification) ---------------------------------------------------------------------
pub open spec fn is_mark() -> spec_fn(u8) -> bool { |b: u8| b == 0xFE || b == 0xFF }
pub open spec fn unknown() -> Seq<u8> { encode_utf8("<unknown>"@) }
pub open spec fn cat(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> Option<Seq<u8>> {
    match (a, b) { (Some(x), Some(y)) => Some(x + y), _ => None }
}
/// address an id stands for; None if it cannot be resolved
pub open spec fn resolve(ix: Map<StringId, Addr>, id: StringId) -> Option<int> {
    if user_virtual(id.0) || id.0 == METADATA_STRING_ID { if ix.dom().contains(id) { Some(ix[id].0 as int) } else { None } }
    else if id.0 == INVALID_STRING_ID { None }
    else { Some(id.0 - FIRST_REGULAR_STRING_ID) }
}
/// UTF-8 text of a string id: Some(text) if the entry is well formed and its references do not nest deeper than `f` allows
pub open spec fn text_id(d: Seq<u8>, ix: Map<StringId, Addr>, id: StringId, f: nat) -> Option<Seq<u8>>
    decreases f, 1nat
{
    match resolve(ix, id) { None => Some(unknown()), Some(a) => text_at(d, ix, a, f) }
}
pub open spec fn text_at(d: Seq<u8>, ix: Map<StringId, Addr>, p: int, f: nat) -> Option<Seq<u8>>
    decreases f, 0nat
{
    if p < 0 || p >= d.len() { None }
    else if d[p] == 0xFF { Some(Seq::<u8>::empty()) }
    else if f == 0 { None }
    else if d[p] == 0xFE {
        if p + 9 > d.len() { None }
        else { cat(text_id(d, ix, StringId(le64(d.subrange(p + 1, p + 9)) as u64), (f - 1) as nat), text_at(d, ix, p + 9, (f - 1) as nat)) }
    } else {
        let r = d.subrange(p, d.len() as int);
        let n = first_pos(r, is_mark());
        if n >= r.len() || !valid_utf8(r.subrange(0, n)) { None }
        else { cat(Some(r.subrange(0, n)), text_at(d, ix, p + n, (f - 1) as nat)) }
    }
}
/// more depth never changes the text
pub proof fn lemma_text_mono(d: Seq<u8>, ix: Map<StringId, Addr>, id: StringId, p: int, f: nat, g: nat)
    requires f <= g,
    ensures text_id(d, ix, id, f) is Some ==> text_id(d, ix, id, g) == text_id(d, ix, id, f),
            text_at(d, ix, p, f) is Some ==> text_at(d, ix, p, g) == text_at(d, ix, p, f),
    decreases f
{
    if f > 0 {
        let r = d.subrange(p, d.len() as int);
        if 0 <= p < d.len() {
            lemma_text_mono(d, ix, StringId(le64(d.subrange(p + 1, p + 9)) as u64), p + 9, (f - 1) as nat, (g - 1) as nat);
            lemma_text_mono(d, ix, id, p + first_pos(r, is_mark()), (f - 1) as nat, (g - 1) as nat);
        }
        match resolve(ix, id) { Some(a) => {
            let r = d.subrange(a, d.len() as int);
            if 0 <= a < d.len() {
                lemma_text_mono(d, ix, StringId(le64(d.subrange(a + 1, a + 9)) as u64), a + 9, (f - 1) as nat, (g - 1) as nat);
                lemma_text_mono(d, ix, id, a + first_pos(r, is_mark()), (f - 1) as nat, (g - 1) as nat);
            }
        }, None => {} }
    }
}

/// decodable text ends with a terminator
pub proof fn lemma_terminated(d: Seq<u8>, ix: Map<StringId, Addr>, p: int, f: nat)
    requires text_at(d, ix, p, f) is Some,
    ensures 0 <= p < d.len(), exists|i: int| p <= i < d.len() && #[trigger] d[i] == 0xFF,
    decreases f
{
    if d[p] == 0xFF { }
    else if d[p] == 0xFE {
        lemma_terminated(d, ix, p + 9, (f - 1) as nat);
    } else {
        let r = d.subrange(p, d.len() as int);
        lemma_first_pos(r, is_mark());
        lemma_terminated(d, ix, p + first_pos(r, is_mark()), (f - 1) as nat);
    }
}

// ---- how a string is stored (specification) ------------------------------------------------------------------------
pub enum Piece { Value(Seq<u8>), Ref(u64) }
pub open spec fn piece_len(c: Piece) -> nat { match c { Piece::Value(s) => s.len(), Piece::Ref(_) => 9 } }
pub open spec fn is_piece(b: Seq<u8>, c: Piece) -> bool {
    match c { Piece::Value(s) => b == s, Piece::Ref(id) => b.len() == 9 && b[0] == 0xFE && le64(b.subrange(1, 9)) == id }
}
pub open spec fn is_pieces(b: Seq<u8>, cs: Seq<Piece>) -> bool
    decreases cs.len()
{
    if cs.len() == 0 { b.len() == 0 }
    else {
        &&& piece_len(cs[0]) <= b.len()
        &&& is_piece(b.subrange(0, piece_len(cs[0]) as int), cs[0])
        &&& is_pieces(b.subrange(piece_len(cs[0]) as int, b.len() as int), cs.drop_first())
    }
}
pub open spec fn pieces_len(cs: Seq<Piece>) -> nat
    decreases cs.len()
{ if cs.len() == 0 { 0 } else { piece_len(cs[0]) + pieces_len(cs.drop_first()) } }
/// a stored entry: the pieces and the terminator
pub open spec fn is_entry(b: Seq<u8>, cs: Seq<Piece>) -> bool {
    b.len() >= 1 && b.last() == 0xFF && is_pieces(b.drop_last(), cs)
}
pub proof fn lemma_pieces_len(b: Seq<u8>, cs: Seq<Piece>)
    requires is_pieces(b, cs),
    ensures b.len() == pieces_len(cs),
    decreases cs.len()
{
    if cs.len() > 0 { lemma_pieces_len(b.subrange(piece_len(cs[0]) as int, b.len() as int), cs.drop_first()); }
}
pub proof fn lemma_pieces_push(b: Seq<u8>, cs: Seq<Piece>, x: Seq<u8>, c: Piece)
    requires is_pieces(b, cs), is_piece(x, c), x.len() == piece_len(c),
    ensures is_pieces(b + x, cs.push(c)), pieces_len(cs.push(c)) == pieces_len(cs) + piece_len(c),
    decreases cs.len()
{
    lemma_pieces_len(b, cs);
    let y = b + x;
    let ds = cs.push(c);
    if cs.len() == 0 {
        assert(y =~= x);
        assert(y.subrange(0, piece_len(c) as int) =~= x);
        assert(ds.drop_first() =~= Seq::<Piece>::empty());
        assert(is_pieces(y.subrange(piece_len(c) as int, y.len() as int), ds.drop_first()));
        assert(pieces_len(ds.drop_first()) == 0);
    } else {
        let n = piece_len(cs[0]) as int;
        lemma_pieces_push(b.subrange(n, b.len() as int), cs.drop_first(), x, c);
        assert(ds.drop_first() =~= cs.drop_first().push(c));
        assert(ds[0] == cs[0]);
        assert(y.subrange(0, n) =~= b.subrange(0, n));
        assert(y.subrange(n, y.len() as int) =~= b.subrange(n, b.len() as int) + x);
    }
}

// ---- C08: what is stored for some pieces reads back as their concatenation -----------------------------------------
pub open spec fn piece_text(d: Seq<u8>, ix: Map<StringId, Addr>, c: Piece, f: nat) -> Option<Seq<u8>> {
    match c { Piece::Value(s) => Some(s), Piece::Ref(id) => text_id(d, ix, StringId(id), f) }
}
/// the concatenation of the literal pieces and of the texts of the referenced strings
pub open spec fn pieces_text(d: Seq<u8>, ix: Map<StringId, Addr>, cs: Seq<Piece>, f: nat) -> Option<Seq<u8>>
    decreases cs.len()
{ if cs.len() == 0 { Some(Seq::<u8>::empty()) } else { cat(piece_text(d, ix, cs[0], f), pieces_text(d, ix, cs.drop_first(), f)) } }

/// a literal followed by decodable text
proof fn lemma_run(d: Seq<u8>, ix: Map<StringId, Addr>, p: int, s: Seq<u8>, f: nat)
    requires 0 <= p, p + s.len() <= d.len(), d.subrange(p, p + s.len()) == s, valid_utf8(s), text_at(d, ix, p + s.len() as int, f) is Some,
    ensures text_at(d, ix, p, f + 1) == cat(Some(s), text_at(d, ix, p + s.len() as int, f)),
{
    let q = p + s.len() as int;
    let rest = text_at(d, ix, q, f).unwrap();
    if s.len() == 0 {
        lemma_text_mono(d, ix, StringId(0), p, f, f + 1);
        assert(s + rest =~= rest);
    } else {
        lemma_valid_bytes(s);
        assert forall|i: int| 0 <= i < s.len() implies d[p + i] == s[i] by { assert(d.subrange(p, q)[i] == d[p + i]); }
        assert(d[p] == s[0] && s[0] < 0xF8u8);
        let r = d.subrange(p, d.len() as int);
        if d[q] >= 0xFE {
            assert(r[s.len() as int] == d[q]);
            assert forall|i: int| 0 <= i < s.len() implies !is_mark()(#[trigger] r[i]) by { assert(r[i] == s[i]); }
            lemma_first_pos_unique(r, is_mark(), s.len() as int);
            assert(r.subrange(0, s.len() as int) =~= s);
            lemma_text_mono(d, ix, StringId(0), q, f, f);
        } else {
            // the literal that starts at q continues this one
            let r2 = d.subrange(q, d.len() as int);
            let n = first_pos(r2, is_mark());
            lemma_first_pos(r2, is_mark());
            let s2 = r2.subrange(0, n);
            let tail = text_at(d, ix, q + n, (f - 1) as nat);
            assert(text_at(d, ix, q, f) == cat(Some(s2), tail));
            lemma_text_mono(d, ix, StringId(0), q + n, (f - 1) as nat, f);
            let m = s.len() + n;
            assert forall|i: int| 0 <= i < m implies !is_mark()(#[trigger] r[i]) by {
                if i < s.len() { assert(r[i] == s[i]); } else { assert(r[i] == r2[i - s.len()]); }
            }
            assert(r[m] == r2[n]);
            lemma_first_pos_unique(r, is_mark(), m);
            assert(r.subrange(0, m) =~= s + s2);
            valid_utf8_concat(s, s2);
            assert((s + s2) + tail.unwrap() =~= s + (s2 + tail.unwrap()));
        }
    }
}
/// decoding the pieces stored at p, followed by a terminator
proof fn lemma_decode_pieces(d: Seq<u8>, ix: Map<StringId, Addr>, p: int, cs: Seq<Piece>, f: nat)
    requires
        0 <= p, p + pieces_len(cs) < d.len(), is_pieces(d.subrange(p, p + pieces_len(cs)), cs), d[p + pieces_len(cs)] == 0xFF,
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i] matches Piece::Value(s) ==> valid_utf8(s)),
        pieces_text(d, ix, cs, f) is Some,
    ensures text_at(d, ix, p, f + cs.len()) == pieces_text(d, ix, cs, f),
    decreases cs.len()
{
    if cs.len() > 0 {
        let n = piece_len(cs[0]) as int;
        let q = p + n;
        let b = d.subrange(p, p + pieces_len(cs));
        let cs2 = cs.drop_first();
        assert(b.subrange(n, b.len() as int) =~= d.subrange(q, q + pieces_len(cs2)));
        assert forall|i: int| 0 <= i < cs2.len() implies (#[trigger] cs2[i] matches Piece::Value(s) ==> valid_utf8(s)) by { assert(cs2[i] == cs[i + 1]); }
        lemma_decode_pieces(d, ix, q, cs2, f);
        let g = (f + cs2.len()) as nat;
        match cs[0] {
            Piece::Value(s) => {
                assert(d.subrange(p, p + s.len()) =~= b.subrange(0, n));
                lemma_run(d, ix, p, s, g);
            }
            Piece::Ref(id) => {
                assert(b.subrange(0, 9).subrange(1, 9) =~= d.subrange(p + 1, p + 9));
                assert(d[p] == b.subrange(0, 9)[0]);
                lemma_text_mono(d, ix, StringId(id), q, f, g);
            }
        }
        assert(g + 1 == f + cs.len());
    }
}
/// C08: the id returned for stored pieces decodes to exactly their concatenation, once all references decode
pub proof fn lemma_stored_text(d: Seq<u8>, ix: Map<StringId, Addr>, a: int, n: int, cs: Seq<Piece>, f: nat)
    requires
        0 <= a, 0 < n, a + n <= d.len(), a + FIRST_REGULAR_STRING_ID <= u64::MAX, is_entry(d.subrange(a, a + n), cs),
        forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i] matches Piece::Value(s) ==> valid_utf8(s)),
        pieces_text(d, ix, cs, f) is Some,
    ensures text_id(d, ix, StringId((a + FIRST_REGULAR_STRING_ID) as u64), f + cs.len()) == pieces_text(d, ix, cs, f),
{
    let b = d.subrange(a, a + n);
    lemma_pieces_len(b.drop_last(), cs);
    assert(b.drop_last() =~= d.subrange(a, a + pieces_len(cs)));
    assert(d[a + pieces_len(cs)] == b.last());
    lemma_decode_pieces(d, ix, a, cs, f);
}
// ---- C09: the index maps every id to its last entry ----------------------------------------------------------------
pub open spec fn entry_id(e: Seq<u8>) -> StringId { StringId(le64(e.subrange(0, 8)) as u64) }
pub open spec fn entry_addr(e: Seq<u8>) -> Addr { Addr(le64(e.subrange(8, 16)) as u64) }
pub open spec fn index_map(b: Seq<u8>) -> Map<StringId, Addr>
    decreases b.len()
{
    if b.len() < 16 { Map::empty() } else {
        let n = b.len() - 16;
        index_map(b.subrange(0, n)).insert(entry_id(b.subrange(n, b.len() as int)), entry_addr(b.subrange(n, b.len() as int)))
    }
}
/// mapping one more id: it resolves to the new address, every other id as before
pub proof fn lemma_index_push(b: Seq<u8>, e: Seq<u8>)
    requires e.len() == 16,
    ensures index_map(b + e) == index_map(b).insert(entry_id(e), entry_addr(e)),
{
    let c = b + e;
    assert(c.subrange(0, c.len() - 16) =~= b);
    assert(c.subrange(c.len() - 16, c.len() as int) =~= e);
}
/// C09: after a mapping the virtual id resolves to the string's address, and earlier strings keep their ids
pub proof fn lemma_mapped(b: Seq<u8>, e: Seq<u8>, other: StringId)
    requires e.len() == 16, user_virtual(entry_id(e).0) || entry_id(e).0 == METADATA_STRING_ID,
    ensures resolve(index_map(b + e), entry_id(e)) == Some(entry_addr(e).0 as int),
        other != entry_id(e) ==> resolve(index_map(b + e), other) == resolve(index_map(b), other),
{
    lemma_index_push(b, e);
}
} // verus!
