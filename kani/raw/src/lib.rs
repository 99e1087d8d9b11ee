//! Contracts of measureme::RawEvent, decided on the real compiled code.  Every harness is loop-free over the full domain of its
//! inputs (u64/u32 values, arbitrary ids, slices of any length), so a successful run is a proof for all inputs.
#![allow(dead_code, unused_imports)]

#[cfg(kani)]
mod proofs {
    use measureme::{EventId, RawEvent, StringId, MAX_INTERVAL_VALUE, MAX_SINGLE_VALUE};

    const M48: u64 = (1 << 48) - 1;

    fn ids() -> (u64, u64, u32, StringId, EventId) {
        let (k, i, t): (u64, u64, u32) = (kani::any(), kani::any(), kani::any());
        (k, i, t, StringId::new(k), EventId::from_u64(i))
    }

    fn same_ids(e: &RawEvent, k: u64, i: u64, t: u32) -> bool {
        e.event_kind.as_u64() == k && e.event_id.as_u64() == i && e.thread_id == t
    }

    // ---------------------------------------------------------------- C05
    #[kani::proof]
    fn limits() {
        assert!(MAX_SINGLE_VALUE == M48, "C05: the single value limit is 2^48-1");
        assert!(MAX_INTERVAL_VALUE == M48 - 2, "C05: the interval limit excludes exactly the two markers");
    }

    #[kani::proof]
    fn interval_roundtrip() {
        let (k, i, t, kind, id) = ids();
        let (start, end): (u64, u64) = (kani::any(), kani::any());
        kani::assume(start <= end && end <= MAX_INTERVAL_VALUE);
        let e = RawEvent::new_interval(kind, id, t, start, end);
        assert!(same_ids(&e, k, i, t), "C05: ids are stored");
        assert!(e.start_value() == start && e.end_value() == end, "C05: interval values come back");
        assert!(!e.is_instant() && !e.is_integer(), "C05: an interval is an interval");
        kani::cover!(start < end, "reachable");
    }

    #[kani::proof]
    fn instant_roundtrip() {
        let (k, i, t, kind, id) = ids();
        let v: u64 = kani::any();
        kani::assume(v <= MAX_SINGLE_VALUE);
        let e = RawEvent::new_instant(kind, id, t, v);
        assert!(same_ids(&e, k, i, t), "C05: ids are stored");
        assert!(e.start_value() == v && e.value() == v, "C05: instant value comes back");
        assert!(e.is_instant() && !e.is_integer(), "C05: an instant is an instant");
    }

    #[kani::proof]
    fn integer_roundtrip() {
        let (k, i, t, kind, id) = ids();
        let v: u64 = kani::any();
        kani::assume(v <= MAX_SINGLE_VALUE);
        let e = RawEvent::new_integer(kind, id, t, v);
        assert!(same_ids(&e, k, i, t), "C05: ids are stored");
        assert!(e.value() == v && e.start_value() == v, "C05: integer value comes back");
        assert!(e.is_integer() && !e.is_instant(), "C05: an integer is an integer");
    }

    /// Fails (with a failure that is not a panic) if the call returns.
    fn returned() {
        unsafe { std::hint::unreachable_unchecked() }
    }

    #[kani::proof]
    #[kani::should_panic]
    fn interval_rejects() {
        let (_, _, t, kind, id) = ids();
        let (start, end): (u64, u64) = (kani::any(), kani::any());
        kani::assume(start > end || end > M48 - 2);
        let _ = RawEvent::new_interval(kind, id, t, start, end);
        returned()
    }

    #[kani::proof]
    #[kani::should_panic]
    fn instant_rejects() {
        let (_, _, t, kind, id) = ids();
        let v: u64 = kani::any();
        kani::assume(v > M48);
        let _ = RawEvent::new_instant(kind, id, t, v);
        returned()
    }

    #[kani::proof]
    #[kani::should_panic]
    fn integer_rejects() {
        let (_, _, t, kind, id) = ids();
        let v: u64 = kani::any();
        kani::assume(v > M48);
        let _ = RawEvent::new_integer(kind, id, t, v);
        returned()
    }

    // the contract of the accessors that the decoder's proof (C07, C13) relies on
    #[kani::proof]
    fn accessors() {
        let (_, _, t, kind, id) = ids();
        let (p1, p2, up): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let e = RawEvent { event_kind: kind, event_id: id, thread_id: t, payload1_lower: p1, payload2_lower: p2, payloads_upper: up };
        let a = p1 as u64 + ((up >> 16) as u64) * (1 << 32);
        let b = p2 as u64 + ((up & 0xffff) as u64) * (1 << 32);
        assert!(e.start_value() == a && e.value() == a, "C05: first payload");
        assert!(e.end_value() == b, "C05: second payload");
        assert!(e.is_instant() == (b == M48), "C05: instant marker");
        assert!(e.is_integer() == (b == M48 - 1), "C05: integer marker");
    }

    // ---------------------------------------------------------------- C06
    fn any_event() -> RawEvent {
        let (_, _, t, kind, id) = ids();
        RawEvent { event_kind: kind, event_id: id, thread_id: t, payload1_lower: kani::any(), payload2_lower: kani::any(), payloads_upper: kani::any() }
    }

    fn u32_at(b: &[u8], i: usize) -> u32 {
        (b[i] as u32) | (b[i + 1] as u32) << 8 | (b[i + 2] as u32) << 16 | (b[i + 3] as u32) << 24
    }

    fn u64_at(b: &[u8], i: usize) -> u64 {
        u32_at(b, i) as u64 | (u32_at(b, i + 4) as u64) << 32
    }

    fn layout(e: &RawEvent, b: &[u8]) -> bool {
        u64_at(b, 0) == e.event_kind.as_u64()
            && u64_at(b, 8) == e.event_id.as_u64()
            && u32_at(b, 16) == e.thread_id
            && u32_at(b, 20) == e.payload1_lower
            && u32_at(b, 24) == e.payload2_lower
            && u32_at(b, 28) == e.payloads_upper
    }

    #[kani::proof]
    fn serialize_layout() {
        let e = any_event();
        let mut b: [u8; 32] = kani::any();
        e.serialize(&mut b);
        assert!(layout(&e, &b), "C06: fields at offsets 0, 8, 16, 20, 24, 28, little-endian");
    }

    #[kani::proof]
    fn deserialize_layout() {
        let b: [u8; 32] = kani::any();
        let e = RawEvent::deserialize(&b);
        assert!(layout(&e, &b), "C06: deserialize reads the same layout");
    }

    #[kani::proof]
    fn serialize_inverse() {
        let e = any_event();
        let mut b = [0u8; 32];
        e.serialize(&mut b);
        let f = RawEvent::deserialize(&b);
        assert!(e.event_kind == f.event_kind && e.event_id == f.event_id && e.thread_id == f.thread_id && e.payload1_lower == f.payload1_lower
            && e.payload2_lower == f.payload2_lower && e.payloads_upper == f.payloads_upper, "C06: deserialize(serialize(e)) == e");
        let b2: [u8; 32] = kani::any();
        let g = RawEvent::deserialize(&b2);
        let mut b3 = [0u8; 32];
        g.serialize(&mut b3);
        assert!(b2 == b3, "C06: serialize(deserialize(b)) == b");
    }

    /// a byte slice of any length other than 32
    fn any_wrong_slice() -> &'static mut [u8] {
        let len: usize = kani::any();
        kani::assume(len != 32 && len <= isize::MAX as usize / 2);
        unsafe {
            let p = if len == 0 { std::ptr::NonNull::<u8>::dangling().as_ptr() } else { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1)) };
            std::slice::from_raw_parts_mut(p, len)
        }
    }

    #[kani::proof]
    #[kani::should_panic]
    fn serialize_rejects() {
        let e = any_event();
        e.serialize(any_wrong_slice());
        returned()
    }

    #[kani::proof]
    #[kani::should_panic]
    fn deserialize_rejects() {
        let _ = RawEvent::deserialize(any_wrong_slice());
        returned()
    }

    #[kani::proof]
    fn default_event() {
        let e = RawEvent::default();
        assert!(e.thread_id == 0 && e.payload1_lower == 0 && e.payload2_lower == 0 && e.payloads_upper == 0, "C06: default");
    }
}
