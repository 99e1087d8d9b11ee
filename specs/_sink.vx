//@guard self . data . lock ( ) ==> vx_lock_data ( & self . data , Tracked ( & mut * w ) , Ghost ( self . page_tag as int ) ) ==> vx_unlock_data ( $g , Tracked ( & mut * w ) , Ghost ( self . page_tag as int ) ) ;
//@guard self . 0 . data . lock ( ) ==> vx_lock_data ( & self . 0 . data , Tracked ( & mut * w ) , Ghost ( self . 0 . page_tag as int ) ) ==> vx_unlock_data ( $g , Tracked ( & mut * w ) , Ghost ( self . 0 . page_tag as int ) ) ;
//@guard self . shared_state . 0 . lock ( ) ==> vx_lock_store ( & self . shared_state . 0 , Tracked ( & mut * w ) , Ghost ( self . page_tag as int ) ) ==> vx_unlock_store ( $g , Tracked ( & mut * w ) , Ghost ( self . page_tag as int ) ) ;
//@guard self . 0 . lock ( ) ==> vx_lock_store ( & self . 0 , Tracked ( & mut * w ) , Ghost ( page_tag as int ) ) ==> vx_unlock_store ( $g , Tracked ( & mut * w ) , Ghost ( page_tag as int ) ) ;
//@grw self . 0 . shared_state . 0 . lock ( ) . flush ( ) ==> vx_flush_store ( & self . 0 . shared_state . 0 , Tracked ( & mut * w ) , Ghost ( self . 0 . page_tag as int ) )
//@grw let $p $q = * $g:id ; ==> let $p $q = $g ;
//@grw match * $g:id { BackingStorage $$r } ==> match $g { BackingStorage $r }
//@grw $f:place . write_all ( $$x ) . unwrap ( ) ==> vx_write_all ( & mut $f , $x )
//@grw ( $$x ) . to_le_bytes ( ) ==> vx_u32_to_le ( $x )
//@grw $x:recv . to_le_bytes ( ) ==> vx_u32_to_le ( $x )
//@grw self . flush ( $$x ) ==> self . flush ( $x , Tracked ( & mut * w ) )
//@grw self . 0 . flush ( $$x ) ==> self . 0 . flush ( $x , Tracked ( & mut * w ) )
//@grw self . write_page ( $$x ) ==> self . write_page ( $x , Tracked ( & mut * w ) )
//@grw self . 0 . write_page ( $$x ) ==> self . 0 . write_page ( $x , Tracked ( & mut * w ) )
//@grw self . write_bytes_atomic ( $$x ) ==> self . write_bytes_atomic ( $x , Tracked ( & mut * w ) )
//@grw self . 0 . write_bytes_atomic ( $$x ) ==> self . 0 . write_bytes_atomic ( $x , Tracked ( & mut * w ) )
//@grw for $c:id in $s:place . chunks ( $$n ) $inv $body ==> { let vx_s = $s ; let vx_n = $n ; let mut vx_i : usize = 0 ; while vx_i < vx_s . len ( ) $inv { let vx_j = if vx_s . len ( ) - vx_i < vx_n { vx_s . len ( ) } else { vx_i + vx_n } ; let $c = & vx_s [ vx_i .. vx_j ] ; vx_i = vx_j ; $body } }
//@grw write ( & mut $b:id [ .. ] ) ; ==> write ( $b . as_mut_slice ( ) ) ;
//@grw write ( & mut $b:id [ $$r ] ) ; ==> write ( & mut $b . as_mut_slice ( ) [ $r ] ) ;
//@grw debug_assert ! ( $$c ) ==> assert ! ( $c )
//@grw Mutex :: new ( $$x ) ==> vx_mutex_new ( $x )
//@grw data . into_inner ( ) ==> vx_into_inner ( data , Tracked ( & mut * w ) , Ghost ( self . page_tag as int ) )
//@grw self . shared_state . copy_bytes_with_page_tag ( $$x ) ==> self . shared_state . copy_bytes_with_page_tag ( $x , Tracked ( & mut * w ) )
//@grw fs :: File ==> File
//@grw std :: io :: Result < $t > ==> Result < $t , IoError >
verus! {
use std::sync::Arc;

// ---- trusted contracts of the environment: parking_lot::Mutex, std::fs::File, std::io ---------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { p: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
    /// identity of the mutex object's contents
    pub uninterp spec fn id(&self) -> int;
    /// the value it was created with
    pub uninterp spec fn init(&self) -> T;
}
#[verifier::external_body]
pub fn vx_mutex_new<T>(x: T) -> (r: Mutex<T>) ensures r.init() == x { unimplemented!() }

#[verifier::external_body]
pub struct IoError { x: u8 }

#[verifier::external_body]
pub struct File { x: u8 }
impl View for File { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl File {
    #[verifier::external_body]
    pub fn write(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures r matches Ok(n) ==> n <= buf@.len() && final(self)@ == old(self)@ + buf@.subrange(0, n as int),
                r is Err ==> final(self)@ == old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), IoError>) ensures final(self)@ == old(self)@ { unimplemented!() }
}
/// `<Vec<u8> as std::io::Write>::write`
#[verifier::external_body]
pub fn vx_vec_write(v: &mut Vec<u8>, buf: &[u8]) -> (r: Result<usize, IoError>)
    ensures r matches Ok(n) && n == buf@.len(), final(v)@ == old(v)@ + buf@
{ unimplemented!() }

/// std::cmp::min at usize
pub fn min(a: usize, b: usize) -> (r: usize)
    ensures r == (if a <= b { a } else { b })
{ if a <= b { a } else { b } }

//@item measureme/src/serialization.rs :: const MAX_PAGE_SIZE
//@end
//@item measureme/src/serialization.rs :: const MIN_PAGE_SIZE
//@end

//@item measureme/src/serialization.rs :: struct Addr
//@derive Clone, Copy
//@end
//@item measureme/src/serialization.rs :: struct SerializationSinkInner
//@end
//@item measureme/src/serialization.rs :: enum BackingStorage
//@end
//@item measureme/src/serialization.rs :: struct SharedState
//@end
//@item measureme/src/serialization.rs :: struct SerializationSink
//@end
//@item measureme/src/serialization.rs :: struct SerializationSinkBuilder
//@end

impl View for BackingStorage {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> {
        match *self { BackingStorage::File(f) => f@, BackingStorage::Memory(v) => v@ }
    }
}
impl BackingStorage {
//@item measureme/src/serialization.rs :: impl Write for BackingStorage :: fn write
//@rw vec . write ( $$x ) ==> vx_vec_write ( vec , $x )
//@ret r
//@spec
    ensures r matches Ok(n) ==> n <= buf@.len() && final(self)@ == old(self)@ + buf@.subrange(0, n as int),
            r is Err ==> final(self)@ == old(self)@,
//@tail vx_ret
    assert(buf@.subrange(0, buf@.len() as int) =~= buf@);
//@end

//@item measureme/src/serialization.rs :: impl Write for BackingStorage :: fn flush
//@ret r
//@spec
    ensures final(self)@ == old(self)@,
//@end
}

/// `std::io::Write::write_all(..).unwrap()`: repeated `write` until the buffer is used up; an I/O error panics.
/// Trusted: the loop of std's default `write_all`, given the proved contract of `BackingStorage::write`.
#[verifier::external_body]
pub fn vx_write_all(f: &mut BackingStorage, buf: &[u8])
    ensures final(f)@ == old(f)@ + buf@
{ unimplemented!() }

// ---- one thread's view of one sink ---------------------------------------------------------------------------------
pub tracked struct World {
    /// contents of the backing store when this thread last saw it
    pub ghost store: Seq<u8>,
    /// everything written to this sink, in the order of the critical sections
    pub ghost log: Seq<u8>,
    /// `log` at the entry of this thread's latest critical section
    pub ghost at_lock: Seq<u8>,
    /// number of critical sections this thread has entered
    pub ghost sections: nat,
    pub ghost data_held: bool,
    pub ghost store_held: bool,
    /// no other thread uses this sink
    pub ghost excl: bool,
    /// the mutex that protects this sink's state
    pub ghost mutex: int,
}
pub open spec fn prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }

/// The invariant the sink's mutex protects.
pub open spec fn sink_inv(inner: SerializationSinkInner, store: Seq<u8>, tag: int) -> bool {
    &&& inner.addr as nat == stream(store, tag).len() + inner.buffer@.len()
    &&& inner.buffer@.len() <= 262144
}

/// `Mutex::lock` on the sink's own state. Other threads that held the lock before obeyed `vx_unlock_data`,
/// so the invariant holds and the log only grew.
#[verifier::external_body]
pub fn vx_lock_data(m: &Mutex<SerializationSinkInner>, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>) -> (r: SerializationSinkInner)
    requires
        !old(w).data_held, !old(w).store_held, m.id() == old(w).mutex,  //# C02
    ensures
        final(w).data_held, !final(w).store_held, final(w).excl == old(w).excl, final(w).mutex == old(w).mutex,
        final(w).sections == old(w).sections + 1,
        prefix(old(w).log, final(w).at_lock), final(w).log == final(w).at_lock,
        old(w).excl ==> final(w).at_lock == old(w).log,
        pages(final(w).store, 262144), prefix(old(w).store, final(w).store),
        sink_inv(r, final(w).store, tag),
        final(w).at_lock == stream(final(w).store, tag) + r.buffer@,
        // machine arithmetic: fewer than 2^62 bytes go through one sink
        r.addr < 0x4000_0000_0000_0000,
{ unimplemented!() }

/// End of the guard's scope. What is protected must be consistent again, and what had been logged must still be there.
#[verifier::external_body]
pub fn vx_unlock_data(inner: SerializationSinkInner, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>)
    requires
        old(w).data_held, !old(w).store_held,
        inner.addr as nat == stream(old(w).store, tag).len() + inner.buffer@.len(),  //# C02
        inner.buffer@.len() <= 262144,  //# C01, C03
        prefix(old(w).at_lock, stream(old(w).store, tag) + inner.buffer@),  //# C01, C02
    ensures
        !final(w).data_held, final(w).store_held == old(w).store_held, final(w).excl == old(w).excl,
        final(w).mutex == old(w).mutex, final(w).sections == old(w).sections,
        final(w).at_lock == old(w).at_lock, final(w).store == old(w).store,
        final(w).log == stream(old(w).store, tag) + inner.buffer@,
{ unimplemented!() }

/// `Mutex::lock` on the shared backing store: other sinks (and, unless this thread holds the sink's lock, other users of
/// this sink) may have appended complete pages.
#[verifier::external_body]
pub fn vx_lock_store(m: &Arc<Mutex<BackingStorage>>, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>) -> (r: BackingStorage)
    requires !old(w).store_held,
    ensures
        final(w).store_held, final(w).data_held == old(w).data_held, final(w).excl == old(w).excl,
        final(w).mutex == old(w).mutex, final(w).sections == old(w).sections,
        final(w).at_lock == old(w).at_lock, final(w).log == old(w).log,
        r@ == final(w).store, pages(r@, 262144), prefix(old(w).store, r@),
        old(w).data_held || old(w).excl ==> stream(r@, tag) == stream(old(w).store, tag),
{ unimplemented!() }

#[verifier::external_body]
pub fn vx_unlock_store(s: BackingStorage, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>)
    requires
        old(w).store_held,
        pages(s@, 262144),  //# C01, C03
        prefix(old(w).store, s@),  //# C01, C03
        forall|t: int| t != tag ==> stream(s@, t) == stream(old(w).store, t),  //# C01, C03
        old(w).data_held || stream(s@, tag) == stream(old(w).store, tag),  //# C01, C02
    ensures
        !final(w).store_held, final(w).data_held == old(w).data_held, final(w).excl == old(w).excl,
        final(w).mutex == old(w).mutex, final(w).sections == old(w).sections,
        final(w).at_lock == old(w).at_lock, final(w).log == old(w).log, final(w).store == s@,
{ unimplemented!() }

/// `self.0.shared_state.0.lock().flush()`: a temporary guard around `BackingStorage::flush`
pub fn vx_flush_store(m: &Arc<Mutex<BackingStorage>>, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>) -> (r: Result<(), IoError>)
    requires !old(w).store_held,
    ensures
        !final(w).store_held, final(w).data_held == old(w).data_held, final(w).excl == old(w).excl,
        final(w).mutex == old(w).mutex, final(w).sections == old(w).sections,
        final(w).at_lock == old(w).at_lock, final(w).log == old(w).log,
        pages(final(w).store, 262144), prefix(old(w).store, final(w).store),
        old(w).data_held || old(w).excl ==> stream(final(w).store, tag) == stream(old(w).store, tag),
{
    let mut g = vx_lock_store(m, Tracked(&mut *w), Ghost(tag));
    let r = g.flush();
    proof { assert(prefix(w.store, w.store)) by { assert(w.store.subrange(0, w.store.len() as int) =~= w.store); } }
    vx_unlock_store(g, Tracked(&mut *w), Ghost(tag));
    r
}

/// `Mutex::into_inner`: nobody else can hold the lock
#[verifier::external_body]
pub fn vx_into_inner(m: Mutex<SerializationSinkInner>, Tracked(w): Tracked<&mut World>, Ghost(tag): Ghost<int>) -> (r: SerializationSinkInner)
    requires
        !old(w).data_held, !old(w).store_held, m.id() == old(w).mutex,  //# C02
    ensures
        final(w).data_held, !final(w).store_held, final(w).excl, final(w).mutex == old(w).mutex,
        final(w).sections == old(w).sections + 1,
        prefix(old(w).log, final(w).at_lock), final(w).log == final(w).at_lock,
        old(w).excl ==> final(w).at_lock == old(w).log,
        pages(final(w).store, 262144), prefix(old(w).store, final(w).store),
        sink_inv(r, final(w).store, tag),
        final(w).at_lock == stream(final(w).store, tag) + r.buffer@,
{ unimplemented!() }

pub open spec fn idle(w: World, m: Mutex<SerializationSinkInner>) -> bool {
    !w.data_held && !w.store_held && m.id() == w.mutex
}

/// What one call that writes `bytes` does: exactly one critical section; the bytes are appended contiguously, behind
/// everything that was logged at its start.
pub open spec fn wrote_bytes(w0: World, w1: World, bytes: Seq<u8>) -> bool {
    &&& w1.log == w1.at_lock + bytes
    &&& prefix(w0.log, w1.at_lock)
    &&& w0.excl ==> w1.at_lock == w0.log
}
pub open spec fn one_section(w0: World, w1: World) -> bool {
    &&& !w1.data_held && !w1.store_held && w1.mutex == w0.mutex && w1.excl == w0.excl
    &&& w1.sections == w0.sections + 1
}
pub open spec fn store_ok(w0: World, w1: World) -> bool {
    pages(w1.store, 262144) && prefix(w0.store, w1.store)
}

/// A critical section in which the own stream changed only by moving the buffer's bytes into the store.
pub open spec fn in_section(w0: World, w1: World) -> bool {
    &&& w1.data_held == w0.data_held && !w1.store_held && w1.mutex == w0.mutex && w1.excl == w0.excl
    &&& w1.sections == w0.sections && w1.at_lock == w0.at_lock && w1.log == w0.log
    &&& pages(w1.store, 262144)
    &&& prefix(w0.store, w1.store)
}

pub proof fn lemma_prefix_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires prefix(a, b), prefix(b, c),
    ensures prefix(a, c),
{ assert(c.subrange(0, a.len() as int) =~= b.subrange(0, a.len() as int)); }

pub proof fn lemma_prefix_trans_all(a: Seq<u8>, b: Seq<u8>)
    requires prefix(a, b),
    ensures forall|c: Seq<u8>| #[trigger] prefix(b, c) ==> prefix(a, c),
{ assert forall|c: Seq<u8>| #[trigger] prefix(b, c) implies prefix(a, c) by { lemma_prefix_trans(a, b, c); } }

pub proof fn lemma_prefix_append(a: Seq<u8>, b: Seq<u8>)
    ensures prefix(a, a + b), (a + b).subrange(a.len() as int, (a + b).len() as int) == b,
{ assert((a + b).subrange(0, a.len() as int) =~= a);
  assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b); }

/// appending a page whose header is written correctly
pub proof fn lemma_append_page(s: Seq<u8>, tag: u8, sz: Seq<u8>, bytes: Seq<u8>, t: Seq<u8>)
    requires pages(s, 262144), tag <= 2, sz.len() == 4, le32(sz) == bytes.len(), 1 <= bytes.len() <= 262144,
        t == s + seq![tag] + sz + bytes,
    ensures pages(t, 262144), prefix(s, t),
        forall|x: int| #[trigger] stream(t, x) == stream(s, x) + (if tag == x { bytes } else { Seq::<u8>::empty() }),
        forall|x: int| x != tag ==> #[trigger] stream(t, x) == stream(s, x),
{
    let p = seq![tag] + sz + bytes;
    assert(p.subrange(1, 5) =~= sz);
    assert(content(p) =~= bytes);
    lemma_single_page(p, 262144);
    lemma_pages_append(s, p, 262144);
    assert(t =~= s + p);
    assert(t.subrange(0, s.len() as int) =~= s);
    assert forall|x: int| x != tag implies #[trigger] stream(t, x) == stream(s, x) by {
        assert(stream(t, x) == stream(s, x) + stream(p, x));
        assert(stream(s, x) + Seq::<u8>::empty() =~= stream(s, x));
    }
}

pub proof fn lemma_append_page_all(s: Seq<u8>, tag: u8, bytes: Seq<u8>)
    requires pages(s, 262144), tag <= 2, 1 <= bytes.len() <= 262144,
    ensures forall|a: Seq<u8>, sz: Seq<u8>, c: Seq<u8>| #![trigger s + a + sz + c]
        a.len() == 1 && a[0] == tag && sz.len() == 4 && le32(sz) == bytes.len() && c == bytes ==> {
            let t = s + a + sz + c;
            &&& pages(t, 262144) && prefix(s, t)
            &&& forall|x: int| #[trigger] stream(t, x) == stream(s, x) + (if tag == x { bytes } else { Seq::<u8>::empty() })
            &&& forall|x: int| x != tag ==> #[trigger] stream(t, x) == stream(s, x)
        }
{
    assert forall|a: Seq<u8>, sz: Seq<u8>, c: Seq<u8>| #![trigger s + a + sz + c]
        a.len() == 1 && a[0] == tag && sz.len() == 4 && le32(sz) == bytes.len() && c == bytes implies {
            let t = s + a + sz + c;
            &&& pages(t, 262144) && prefix(s, t)
            &&& forall|x: int| #[trigger] stream(t, x) == stream(s, x) + (if tag == x { bytes } else { Seq::<u8>::empty() })
            &&& forall|x: int| x != tag ==> #[trigger] stream(t, x) == stream(s, x)
        } by {
        assert(a =~= seq![tag]);
        lemma_append_page(s, tag, sz, bytes, s + a + sz + c);
    }
}

pub open spec fn page_added(s: Seq<u8>, tag: u8, bytes: Seq<u8>, t: Seq<u8>) -> bool {
    let n = s.len() as int;
    &&& t.len() == n + 5 + bytes.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] t[i] == s[i]
    &&& t[n] == tag
    &&& t[n + 1] + 256 * t[n + 2] + 65536 * t[n + 3] + 16777216 * t[n + 4] == bytes.len()
    &&& forall|i: int| n + 5 <= i < t.len() ==> #[trigger] t[i] == bytes[i - n - 5]
}

pub open spec fn page_effect(s: Seq<u8>, tag: u8, bytes: Seq<u8>, t: Seq<u8>) -> bool {
    &&& pages(t, 262144)
    &&& prefix(s, t)
    &&& forall|x: int| #[trigger] stream(t, x) == stream(s, x) + (if tag == x { bytes } else { Seq::<u8>::empty() })
    &&& forall|x: int| x != tag ==> #[trigger] stream(t, x) == stream(s, x)
}

/// The same, whatever the pieces the page is written in.
pub proof fn lemma_append_page_any(s: Seq<u8>, tag: u8, bytes: Seq<u8>)
    requires pages(s, 262144), tag <= 2, 1 <= bytes.len() <= 262144,
    ensures forall|t: Seq<u8>| #![trigger pages(t, 262144)] page_added(s, tag, bytes, t) ==> page_effect(s, tag, bytes, t)
{
    assert forall|t: Seq<u8>| #![trigger page_added(s, tag, bytes, t)] page_added(s, tag, bytes, t) implies page_effect(s, tag, bytes, t) by {
        let n = s.len() as int;
        let sz = t.subrange(n + 1, n + 5);
        assert(t =~= s + seq![tag] + sz + bytes);
        lemma_append_page(s, tag, sz, bytes, t);
    }
}

impl SerializationSink {
//@item measureme/src/serialization.rs :: impl SerializationSink :: fn write_page
//@params Tracked(w): Tracked<&mut World>
//@spec
    requires old(w).data_held, !old(w).store_held, bytes@.len() <= 262144, pages(old(w).store, 262144),
    ensures
        in_section(*old(w), *final(w)),
        stream(final(w).store, self.page_tag as int) == stream(old(w).store, self.page_tag as int) + bytes@,
//@start
    let ghost w0 = *w;
    proof {
        assert(w0.store.subrange(0, w0.store.len() as int) =~= w0.store);
        assert(stream(w0.store, self.page_tag as int) + Seq::<u8>::empty() =~= stream(w0.store, self.page_tag as int));
        assert(bytes@.len() == 0 ==> bytes@ =~= Seq::<u8>::empty());
        assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@);
    }
//@after vx_lock_store
    let ghost s1 = w.store;
    proof {
        assert(s1.subrange(0, s1.len() as int) =~= s1);
        lemma_append_page_all(s1, self.page_tag as u8, bytes@);
        lemma_append_page_any(s1, self.page_tag as u8, bytes@);
        lemma_prefix_trans_all(w0.store, s1);
    }
//@beforeall vx_unlock_store ( $g $x:rest )
    proof {
        assert(page_added(s1, self.page_tag as u8, bytes@, $g@));
        assert(page_effect(s1, self.page_tag as u8, bytes@, $g@));
    }
//@end

//@item measureme/src/serialization.rs :: impl SerializationSink :: fn flush
//@params Tracked(w): Tracked<&mut World>
//@spec
    requires old(w).data_held, !old(w).store_held, old(buffer)@.len() <= 262144, pages(old(w).store, 262144),
    ensures
        in_section(*old(w), *final(w)),
        stream(final(w).store, self.page_tag as int) == stream(old(w).store, self.page_tag as int) + old(buffer)@,
        final(buffer)@.len() == 0,
//@start
    proof { assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); }
//@end

//@item measureme/src/serialization.rs :: impl SerializationSink :: fn write_atomic
//@params Tracked(w): Tracked<&mut World>, Ghost(vx_b): Ghost<Seq<u8>>
//@ret r
//@spec
    requires
        idle(*old(w), self.data), vx_b.len() == num_bytes,
        forall|s: &mut [u8]| #![trigger call_requires(write, (s,))] s@.len() == num_bytes ==> call_requires(write, (s,)),
        forall|s: &mut [u8]| #![trigger call_ensures(write, (s,), ())] call_ensures(write, (s,), ()) ==> final(s)@ == vx_b,
    ensures
        wrote_bytes(*old(w), *final(w), vx_b),  //# C01, C02
        one_section(*old(w), *final(w)),  //# C02
        store_ok(*old(w), *final(w)),  //# C01, C03
        r.0 as nat == final(w).at_lock.len(),  //# C02
    decreases (if num_bytes > 262144 { 2nat } else { 0nat }),
//@start
    let ghost w0 = *w;
//@before ? self . write_bytes_atomic ( & $v:id [ .. ] )
    assert($v@.subrange(0, $v@.len() as int) =~= $v@);
//@after let mut $g:id = vx_lock_data
    let ghost w1 = *w;
    let ghost b1 = $g.buffer@;
    proof { lemma_prefix_trans_all(w0.store, w1.store); lemma_prefix_trans_all(w0.log, w1.at_lock); }
//@beforeall vx_unlock_data ( $g $x:rest )
    proof {
        let ghost b2 = $g.buffer@;
        assert(stream(w.store, self.page_tag as int) + b2 =~= w.at_lock + vx_b);
        lemma_prefix_append(w.at_lock, vx_b);
    }
//@end

//@item measureme/src/serialization.rs :: impl SerializationSink :: fn write_bytes_atomic
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@spec
    requires idle(*old(w), self.data),
    ensures
        wrote_bytes(*old(w), *final(w), bytes@),  //# C01, C02
        one_section(*old(w), *final(w)),  //# C02
        store_ok(*old(w), *final(w)),  //# C01, C03
        r.0 as nat == final(w).at_lock.len(),  //# C02
    decreases (if bytes@.len() <= 128 { 1nat } else { 0nat }),
//@rw self . write_atomic ( $n:place , | $p:id | $body ) ==> self . write_atomic ( $n , | $p : & mut [ u8 ] | requires old ( $p )@ . len ( ) == bytes @ . len ( ) ensures final ( $p )@ == bytes @ $body , Tracked ( & mut * w ) , Ghost ( bytes @ ) )
//@start
    let ghost w0 = *w;
    proof { axiom_slice_len(bytes); assert(bytes@.subrange(0, bytes@.len() as int) =~= bytes@); }
//@after let mut $g:id = vx_lock_data
    let ghost w1 = *w;
    proof { lemma_prefix_trans_all(w0.store, w1.store); lemma_prefix_trans_all(w0.log, w1.at_lock); }
//@beforeall vx_unlock_data ( $g $x:rest )
    proof {
        let ghost b2 = $g.buffer@;
        assert(stream(w.store, self.page_tag as int) + b2 =~= w.at_lock + bytes@);
        lemma_prefix_append(w.at_lock, bytes@);
    }
//@loopstart 0
    proof { lemma_prefix_trans_all(w1.store, w.store); }
//@loop 0
    invariant
        w.data_held, !w.store_held, w.mutex == w0.mutex, w.excl == w0.excl, w.sections == w0.sections + 1,
        w.at_lock == w1.at_lock, pages(w.store, 262144), prefix(w1.store, w.store),
        vx_n == 262144, 0 <= vx_i <= vx_s@.len() <= bytes@.len() <= 0x7fff_ffff_ffff_ffff,
        vx_s@ == bytes_left@,
        vx_i < vx_s@.len() ==> buffer@.len() == 0,
        buffer@.len() <= 262144,
        bytes_left@ == bytes@.subrange(bytes@.len() - bytes_left@.len(), bytes@.len() as int),
        stream(w.store, self.page_tag as int) + buffer@ ==
            w.at_lock + bytes@.subrange(0, bytes@.len() - vx_s@.len() + vx_i),
    decreases vx_s@.len() - vx_i,
//@end

/// `Drop`: everything logged is in the backing store afterwards
//@item measureme/src/serialization.rs :: impl Drop for SerializationSink :: fn drop
//@params Tracked(w): Tracked<&mut World>
//@name drop_sink
//@spec
    requires idle(*old(w), old(self).data),
    ensures
        wrote_bytes(*old(w), *final(w), Seq::<u8>::empty()),  //# C01, C02
        one_section(*old(w), *final(w)),  //# C02
        store_ok(*old(w), *final(w)),  //# C01, C03
        stream(final(w).store, old(self).page_tag as int) == final(w).log,
//@start
    let ghost w0 = *w;
//@after let mut $g:id = vx_lock_data
    let ghost w1 = *w;
    proof { lemma_prefix_trans_all(w0.store, w1.store); lemma_prefix_trans_all(w0.log, w1.at_lock); }
//@beforeall vx_unlock_data ( $g $x:rest )
    proof {
        assert(stream(w.store, self.page_tag as int) + $g.buffer@ =~= w.at_lock);
        assert(stream(w.store, self.page_tag as int) =~= w.at_lock);
        assert(w.at_lock + Seq::<u8>::empty() =~= w.at_lock);
        lemma_prefix_append(w.at_lock, Seq::<u8>::empty());
    }
//@end

//@item measureme/src/serialization.rs :: impl SerializationSink :: fn into_bytes
//@params Tracked(w): Tracked<&mut World>
//@rwsig mut self ==> self_ : SerializationSink
//@rwlast self ==> self_
//@ret r
//@spec
    requires
        idle(*old(w), self_.data), old(w).excl,
    ensures
        // the bytes of this sink's stream, exactly as written
        r@ == old(w).log,
//@start
    let mut self_ = self_;
    let ghost w0 = *w;
//@end
}

impl SharedState {
//@item measureme/src/serialization.rs :: impl SharedState :: fn copy_bytes_with_page_tag
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@rw panic ! ( ) ==> vx_never ( )
//@spec
    requires !old(w).store_held, old(w).excl,
    ensures r@ == stream(old(w).store, page_tag as int),
//@after vx_lock_store
    proof { lemma_pages_weaken(w.store, 262144, u32::MAX as nat); assert(w.store.subrange(0, w.store.len() as int) =~= w.store); }
//@tail vx_ret
    proof { lemma_absent(w.store, page_tag as int); }
//@end
}

pub struct StdWriteAdapter<'a>(pub &'a SerializationSink);
impl<'a> StdWriteAdapter<'a> {
//@item measureme/src/serialization.rs :: impl Write for StdWriteAdapter<'_> :: fn write
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@spec
    requires idle(*old(w), old(self).0.data),
    ensures
        wrote_bytes(*old(w), *final(w), buf@),  //# C01, C02
        one_section(*old(w), *final(w)),  //# C02
        store_ok(*old(w), *final(w)),  //# C01, C03
        r == Ok::<usize, IoError>(buf@.len() as usize),
//@end
//@item measureme/src/serialization.rs :: impl Write for StdWriteAdapter<'_> :: fn flush
//@params Tracked(w): Tracked<&mut World>
//@ret r
//@spec
    requires idle(*old(w), old(self).0.data),
    ensures
        wrote_bytes(*old(w), *final(w), Seq::<u8>::empty()),  //# C01, C02
        one_section(*old(w), *final(w)),  //# C02
        store_ok(*old(w), *final(w)),  //# C01, C03
        stream(final(w).store, old(self).0.page_tag as int) == final(w).log,
//@start
    let ghost w0 = *w;
//@after let mut $g:id = vx_lock_data
    let ghost w1 = *w;
    proof { lemma_prefix_trans_all(w0.store, w1.store); lemma_prefix_trans_all(w0.log, w1.at_lock); }
//@after self . 0 . flush
    proof { lemma_prefix_trans_all(w1.store, w.store); }
//@beforeall vx_unlock_data ( $g $x:rest )
    proof {
        assert(stream(w.store, self.0.page_tag as int) + $g.buffer@ =~= w.at_lock);
        assert(stream(w.store, self.0.page_tag as int) =~= w.at_lock);
        assert(w.at_lock + Seq::<u8>::empty() =~= w.at_lock);
        lemma_prefix_append(w.at_lock, Seq::<u8>::empty());
    }
//@end
}

impl SerializationSinkBuilder {
//@item measureme/src/serialization.rs :: impl SerializationSinkBuilder :: fn new_sink
//@ret r
//@spec
    ensures
        r.page_tag == page_tag,
        r.shared_state.store_id() == self.0.store_id(),
        // the sink's invariant holds initially: empty stream, empty buffer, address 0
        r.data.init().buffer@.len() == 0, r.data.init().addr == 0,
//@end
//@item measureme/src/serialization.rs :: impl SerializationSinkBuilder :: fn new_in_memory
//@ret r
//@spec
    ensures r.0.0.init()@ == Seq::<u8>::empty(),
//@end
//@item measureme/src/serialization.rs :: impl SerializationSinkBuilder :: fn new_from_file
//@retty Result<Self, IoError>
//@ret r
//@spec
    // what the file holds already (the header) stays in front of the pages
    ensures r matches Ok(b) && b.0.0.init()@ == file@,
//@end
}
impl SerializationSink {
//@item measureme/src/serialization.rs :: impl SerializationSink :: fn as_std_write
//@retty StdWriteAdapter<'a>
//@ret r
//@spec
    ensures r.0 == self,
//@end
}
impl SharedState {
    pub open spec fn store_id(&self) -> int { self.0.id() }
    /// derived `Clone` on `Arc<Mutex<..>>`: the same mutex
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.store_id() == self.store_id() { unimplemented!() }
}

// ---- what the contracts add up to --------------------------------------------------------------------------------
/// Two successive writes through one sink (with any number of other writers in between): the ranges are disjoint and
/// ordered, both stand unmodified in everything that is logged later, and without other writers nothing lies between.
pub proof fn lemma_ranges(w0: World, w1: World, w2: World, w3: World, b1: Seq<u8>, b2: Seq<u8>)
    requires
        wrote_bytes(w0, w1, b1), one_section(w0, w1), wrote_bytes(w1, w2, b2), one_section(w1, w2),
        prefix(w2.log, w3.log),
    ensures ({
        let a1 = w1.at_lock.len() as int;
        let a2 = w2.at_lock.len() as int;
        &&& a1 + b1.len() <= a2
        &&& w0.excl ==> a1 + b1.len() == a2
        &&& w3.log.subrange(a1, a1 + b1.len()) == b1
        &&& w3.log.subrange(a2, a2 + b2.len()) == b2
    })
{
    let a1 = w1.at_lock.len() as int;
    let a2 = w2.at_lock.len() as int;
    assert(w1.log.subrange(a1, a1 + b1.len()) =~= b1);
    assert(w2.at_lock.subrange(0, w1.log.len() as int) == w1.log);
    assert(w2.at_lock.subrange(a1, a1 + b1.len()) =~= w1.log.subrange(a1, a1 + b1.len()));
    assert(w2.log.subrange(a1, a1 + b1.len()) =~= w2.at_lock.subrange(a1, a1 + b1.len()));
    assert(w2.log.subrange(a2, a2 + b2.len()) =~= b2);
    assert(w3.log.subrange(a1, a1 + b1.len()) =~= w2.log.subrange(a1, a1 + b1.len()));
    assert(w3.log.subrange(a2, a2 + b2.len()) =~= w2.log.subrange(a2, a2 + b2.len()));
}

/// Written, dropped, split: the reader gets exactly the log.
pub fn roundtrip(store: &Vec<u8>, tag: PageTag, Tracked(w): Tracked<&mut World>) -> (r: Vec<u8>)
    requires
        store@ == old(w).store, pages(old(w).store, 262144),
        stream(old(w).store, tag as int) == old(w).log,   // what `drop_sink` ensures
    ensures r@ == old(w).log
{
    proof { lemma_pages_weaken(w.store, 262144, u32::MAX as nat); lemma_absent(w.store, tag as int); }
    let mut m = split_streams(store);
    match m.remove(&tag) { Some(v) => v, None => Vec::new() }
}
} // verus!
