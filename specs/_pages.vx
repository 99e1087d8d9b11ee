verus! {
// ---- the paged container format, from the module documentation -------------------------------------------------
//   page = tag byte, 32-bit little-endian size, exactly `size` content bytes; pages follow one another without padding
pub open spec fn page_size(b: Seq<u8>) -> nat { le32(b.subrange(1, 5)) }
pub open spec fn page_at(b: Seq<u8>) -> bool {
    b.len() >= 5 && b[0] <= 2 && page_size(b) >= 1 && b.len() >= 5 + page_size(b)
}
pub open spec fn rest(b: Seq<u8>) -> Seq<u8> { b.subrange(5 + page_size(b) as int, b.len() as int) }
pub open spec fn content(b: Seq<u8>) -> Seq<u8> { b.subrange(5, 5 + page_size(b) as int) }

/// `b` is a concatenation of complete pages with content sizes in 1..=max
pub open spec fn pages(b: Seq<u8>, max: nat) -> bool
    decreases b.len()
{
    b.len() == 0 || (page_at(b) && page_size(b) <= max && pages(rest(b), max))
}
/// concatenation of the contents of all pages with the given tag, in order
pub open spec fn stream(b: Seq<u8>, tag: int) -> Seq<u8>
    decreases b.len()
{
    if !page_at(b) { Seq::empty() }
    else { (if b[0] == tag { content(b) } else { Seq::empty() }) + stream(rest(b), tag) }
}
/// some page has the given tag
pub open spec fn occurs(b: Seq<u8>, tag: int) -> bool
    decreases b.len()
{
    page_at(b) && (b[0] == tag || occurs(rest(b), tag))
}

pub proof fn lemma_pages_append(a: Seq<u8>, p: Seq<u8>, max: nat)
    requires pages(a, max), pages(p, max),
    ensures
        pages(a + p, max),
        forall|t: int| #[trigger] stream(a + p, t) == stream(a, t) + stream(p, t),
        forall|t: int| #[trigger] occurs(a + p, t) == (occurs(a, t) || occurs(p, t)),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + p =~= p);
        assert forall|t: int| #[trigger] stream(a + p, t) == stream(a, t) + stream(p, t) by {
            assert(stream(a, t) =~= Seq::empty());
            assert(Seq::<u8>::empty() + stream(p, t) =~= stream(p, t));
        }
    } else {
        let ap = a + p;
        assert(ap.subrange(1, 5) =~= a.subrange(1, 5));
        assert(content(ap) =~= content(a));
        assert(rest(ap) =~= rest(a) + p);
        lemma_pages_append(rest(a), p, max);
        assert forall|t: int| #[trigger] stream(ap, t) == stream(a, t) + stream(p, t) by {
            assert(stream(rest(ap), t) == stream(rest(a), t) + stream(p, t));
            let h = if a[0] == t { content(a) } else { Seq::empty() };
            assert(h + (stream(rest(a), t) + stream(p, t)) =~= (h + stream(rest(a), t)) + stream(p, t));
        }
        assert forall|t: int| #[trigger] occurs(ap, t) == (occurs(a, t) || occurs(p, t)) by {
            assert(occurs(rest(ap), t) == (occurs(rest(a), t) || occurs(p, t)));
        }
    }
}

/// a single page
pub proof fn lemma_single_page(p: Seq<u8>, max: nat)
    requires page_at(p), p.len() == 5 + page_size(p), page_size(p) <= max,
    ensures pages(p, max),
        forall|t: int| #[trigger] stream(p, t) == (if p[0] == t { content(p) } else { Seq::<u8>::empty() }),
        forall|t: int| #[trigger] occurs(p, t) == (p[0] == t),
{
    assert(rest(p).len() == 0);
    assert(pages(rest(p), max));
    assert forall|t: int| #[trigger] stream(p, t) == (if p[0] == t { content(p) } else { Seq::<u8>::empty() }) by {
        assert(stream(rest(p), t) =~= Seq::empty());
        assert(content(p) + Seq::<u8>::empty() =~= content(p));
    }
    assert forall|t: int| #[trigger] occurs(p, t) == (p[0] == t) by { assert(!occurs(rest(p), t)); }
}

pub proof fn lemma_pages_weaken(a: Seq<u8>, m1: nat, m2: nat)
    requires pages(a, m1), m1 <= m2,
    ensures pages(a, m2),
    decreases a.len()
{
    if a.len() > 0 { lemma_pages_weaken(rest(a), m1, m2); }
}
} // verus!
