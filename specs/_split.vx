//@grw $m:place . entry ( $$k ) . or_default ( ) ==> vx_entry_or_default ( & mut $m , $k )
verus! {

pub open spec fn is_split(m: Map<PageTag, Vec<u8>>, b: Seq<u8>) -> bool {
    forall|t: PageTag| {
        &&& #[trigger] m.dom().contains(t) <==> occurs(b, t as int)
        &&& m.dom().contains(t) ==> m[t]@ == stream(b, t as int)
    }
}

/// loop step: reading one more page
pub proof fn lemma_step(b: Seq<u8>, pos: int)
    requires 0 <= pos < b.len(), pages(b.subrange(0, pos), u32::MAX as nat), page_at(b.subrange(pos, b.len() as int)),
    ensures ({
        let r = b.subrange(pos, b.len() as int);
        let next = pos + 5 + page_size(r);
        &&& next <= b.len()
        &&& pages(b.subrange(0, next), u32::MAX as nat)
        &&& forall|t: int| #[trigger] stream(b.subrange(0, next), t) ==
              stream(b.subrange(0, pos), t) + (if r[0] == t { b.subrange(pos + 5, next) } else { Seq::<u8>::empty() })
        &&& forall|t: int| #[trigger] occurs(b.subrange(0, next), t) == (occurs(b.subrange(0, pos), t) || r[0] == t)
        &&& rest(r) == b.subrange(next, b.len() as int)
    })
{
    let r = b.subrange(pos, b.len() as int);
    let n = pos + 5 + page_size(r);
    let p = b.subrange(pos, n);
    assert(p.subrange(1, 5) =~= r.subrange(1, 5));
    lemma_single_page(p, u32::MAX as nat);
    assert(le32(r.subrange(1, 5)) <= u32::MAX);
    lemma_pages_append(b.subrange(0, pos), p, u32::MAX as nat);
    assert(b.subrange(0, n) =~= b.subrange(0, pos) + p);
    assert(content(p) =~= b.subrange(pos + 5, n));
    assert(rest(r) =~= b.subrange(n, b.len() as int));
}

pub proof fn lemma_absent(b: Seq<u8>, t: int)
    ensures !occurs(b, t) ==> stream(b, t) == Seq::<u8>::empty()
    decreases b.len()
{
    if page_at(b) {
        lemma_absent(rest(b), t);
        assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty());
    }
}

// (1) On a concatenation of well-formed pages: no panic, and exactly the streams.
//@item measureme/src/serialization.rs :: fn split_streams
//@ret r
//@spec
    requires pages(paged_data@, u32::MAX as nat),
    ensures is_split(r@, paged_data@),
//@start
    proof { axiom_slice_len(paged_data); assert(paged_data@.subrange(0, paged_data@.len() as int) =~= paged_data@);
        assert(paged_data@.subrange(0, 0).len() == 0); }
//@loop 0
    invariant
        0 <= pos <= paged_data@.len() <= 0x7fff_ffff_ffff_ffff,
        pages(paged_data@.subrange(0, pos as int), u32::MAX as nat),
        pages(paged_data@.subrange(pos as int, paged_data@.len() as int), u32::MAX as nat),
        is_split(result@, paged_data@.subrange(0, pos as int)),
    decreases paged_data@.len() - pos,
//@loopstart 0
    proof {
        let ghost rst = paged_data@.subrange(pos as int, paged_data@.len() as int);
        lemma_step(paged_data@, pos as int);
        assert(paged_data@.subrange(pos as int + 1, pos as int + 5) =~= rst.subrange(1, 5));
        assert(rst[0] == paged_data@[pos as int]);
    }
//@loopend 0
    proof {
        let ghost p0 = pos as int - 5 - page_size as int;
        let ghost b0 = paged_data@.subrange(0, p0);
        let ghost b1 = paged_data@.subrange(0, pos as int);
        assert forall|t: PageTag| {
            &&& #[trigger] result@.dom().contains(t) <==> occurs(b1, t as int)
            &&& result@.dom().contains(t) ==> result@[t]@ == stream(b1, t as int)
        } by {
            assert(occurs(b1, t as int) == (occurs(b0, t as int) || tag as int == t as int));
            lemma_absent(b0, t as int);
            assert(stream(b0, t as int) + Seq::<u8>::empty() =~= stream(b0, t as int));
        }
    }
//@end

// (2) On every byte sequence: a normal return implies the input was a concatenation of well-formed pages
//     (panics are modelled as divergence).
//@item measureme/src/serialization.rs :: fn split_streams
//@name split_streams_rejects
//@ret r
//@rw assert ! ( $$c ) ; ==> if ! ( $c ) { vx_diverge ( ) ; }
//@rw PageTag :: try_from_u8 ( $$x ) . unwrap ( ) ==> vx_unwrap_tag ( PageTag :: try_from_u8 ( vx_at ( $x ) ) )
//@rw TryInto :: try_into ( $p:place [ $$x ] ) . unwrap ( ) ==> vx_unwrap_tag ( PageTag :: try_from_u8 ( vx_at ( $p , $x ) ) )
//@rw u32 :: from_le_bytes ( $p:id [ $$a .. $$b ] . try_into ( ) . unwrap ( ) ) ==> vx_u32_from_le_or_panic ( vx_slice ( $p , $a , $b ) )
//@rw $p:place [ $$x ] . try_into ( ) . unwrap ( ) ==> vx_unwrap_tag ( PageTag :: try_from_u8 ( vx_at ( $p , $x ) ) )
//@rw $p:id [ $$a .. $$b ] ==> vx_slice ( $p , $a , $b )
//@rw & vx_slice $g ==> vx_slice $g
//@rw u32 :: from_le_bytes ( $$x . try_into ( ) . unwrap ( ) ) ==> vx_u32_from_le_or_panic ( $x )
//@spec
    ensures pages(paged_data@, u32::MAX as nat),
//@start
    proof { axiom_slice_len(paged_data); assert(paged_data@.subrange(0, paged_data@.len() as int) =~= paged_data@);
        assert(paged_data@.subrange(0, 0).len() == 0); }
//@loop 0
    invariant
        0 <= pos <= paged_data@.len() <= 0x7fff_ffff_ffff_ffff,
        pages(paged_data@.subrange(0, pos as int), u32::MAX as nat),
    ensures pos == paged_data@.len(),
    decreases paged_data@.len() - pos,
//@loopend 0
    proof {
        let ghost p0 = pos as int - 5 - page_size as int;
        assert(paged_data@.subrange(p0, paged_data@.len() as int).subrange(1, 5) =~= paged_data@.subrange(p0 + 1, p0 + 5));
        lemma_step(paged_data@, p0);
    }
//@end

pub fn vx_unwrap_tag(r: Result<PageTag, String>) -> (t: PageTag)
    ensures r == Ok::<PageTag, String>(t)
{ match r { Ok(t) => t, Err(_) => vx_never() } }

/// slice index / range index: panics when out of range
pub fn vx_at(s: &[u8], i: usize) -> (r: u8)
    ensures i < s@.len(), r == s@[i as int]
{ if i >= s.len() { vx_diverge(); } s[i] }
pub fn vx_slice<'a>(s: &'a [u8], a: usize, b: usize) -> (r: &'a [u8])
    ensures a <= b <= s@.len(), r@ == s@.subrange(a as int, b as int)
{ if a > b || b > s.len() { vx_diverge(); } &s[a..b] }
pub fn vx_u32_from_le_or_panic(s: &[u8]) -> (r: u32)
    ensures s@.len() == 4, r as nat == le32(s@)
{ if s.len() != 4 { vx_diverge(); } vx_u32_from_le(s) }
} // verus!
