//@grw $x:recv . copied ( ) . ok_or ( $$e ) ==> ( match $x { Some ( vx_v ) => Ok ( * vx_v ) , None => Err ( $e ) } )
//@grw measureme :: file_header :: ==>
//@grw std :: cmp :: ==>
//@grw Some ( & $v:id ) => $e:place , ==> Some ( $v ) => { let $v = * $v ; $e }
verus! {
//@item decodeme/src/stringtable.rs :: const UNKNOWN_STRING
//@rw & str ==> & 'static str
//@end
//@item decodeme/src/stringtable.rs :: const INVALID_STRING
//@rw & str ==> & 'static str
//@end
//@item decodeme/src/stringtable.rs :: struct StringTable
//@end
//@item decodeme/src/stringtable.rs :: struct StringRef
//@derive Clone, Copy
//@end

/// the text of a string id in a table
pub open spec fn text(r: StringRef<'_>, f: nat) -> Option<Seq<u8>> { text_id(r.table.string_data@, r.table.index@, r.id, f) }

//@item decodeme/src/stringtable.rs :: fn decode_string_ref_from_data
//@ret r
//@spec
    requires bytes@.len() >= 9, bytes@[0] == 0xFE,
    ensures r.0 == le64(bytes@.subrange(1, 9)), //# C08
//@end

impl<'st> StringRef<'st> {
//@item decodeme/src/stringtable.rs :: impl StringRef :: fn get_addr
//@ret r
//@spec
    ensures r is Ok == resolve(self.table.index@, self.id) is Some, //# C08, C09
            r matches Ok(a) ==> resolve(self.table.index@, self.id) == Some(a.0 as int), //# C08, C09
//@end

//@item decodeme/src/stringtable.rs :: impl StringRef :: fn write_to_string
//@props C08
//@params Ghost(f): Ghost<nat>
//@rw $r:place . write_to_string ( $$x ) ==> $r . write_to_string ( $x , Ghost ( ( fc - 1 ) as nat ) )
//@rw $o:id . push_str ( & value ) ==> vx_push_str ( $o , value . vx_deref ( ) )
//@spec
    requires text(*self, f) is Some,
    ensures encode_utf8(final(output)@) == encode_utf8(old(output)@) + text(*self, f).unwrap(), //# C08
            resolve(self.table.index@, self.id) is None ==> encode_utf8(final(output)@) == encode_utf8(old(output)@) + unknown(), //# C09
    decreases f,
//@start
    proof { encode_utf8_concat(output@, "<unknown>"@); }
    let ghost d = self.table.string_data@;
    let ghost ix = self.table.index@;
    let ghost mut fc = f;
    let ghost mut done = Seq::<u8>::empty();
    proof { assert(encode_utf8(output@) + done =~= encode_utf8(output@)); axiom_vec_len(&self.table.string_data); }
//@loop 0
    invariant
        d == self.table.string_data@, ix == self.table.index@, d.len() <= 0x7fff_ffff_ffff_ffff,
        text(*self, f) is Some,
        fc <= f,
        text_at(d, ix, pos as int, fc) is Some,
        text(*self, f).unwrap() == done + text_at(d, ix, pos as int, fc).unwrap(),
        encode_utf8(output@) == encode_utf8(old(output)@) + done,
    decreases fc,
//@loopstart 0
    let ghost out0 = output@;
    let ghost pos0 = pos as int;
    let ghost r0 = d.subrange(pos as int, d.len() as int);
    let ghost n0 = if d[pos0] >= 0xFE { 9 } else { first_pos(r0, is_mark()) };
    proof {
        lemma_first_pos(r0, is_mark());
        assert(done + Seq::<u8>::empty() =~= done);
    }
//@loopend 0
    proof {
        let ghost rest = text_at(d, ix, pos as int, (fc - 1) as nat).unwrap();
        if d[pos0] == 0xFE {
            let ghost t = text_id(d, ix, StringId(le64(d.subrange(pos0 + 1, pos0 + 9)) as u64), (fc - 1) as nat).unwrap();
            assert(done + (t + rest) =~= (done + t) + rest);
            assert(encode_utf8(old(output)@) + (done + t) =~= (encode_utf8(old(output)@) + done) + t);
            done = done + t;
        } else {
            let ghost t = r0.subrange(0, n0);
            assert(done + (t + rest) =~= (done + t) + rest);
            assert(encode_utf8(old(output)@) + (done + t) =~= (encode_utf8(old(output)@) + done) + t);
            done = done + t;
        }
        fc = (fc - 1) as nat;
    }
//@before $x:place . write_to_string
    proof { assert(r0.subrange(1, 9) =~= d.subrange(pos0 + 1, pos0 + 9)); }
//@after let value = $x:rest
    proof {
        lemma_first_pos_unique(r0, is_mark(), len as int);
        assert(text_at(d, ix, pos0, fc) is Some);
        encode_utf8_concat(out0, value@);
    }
//@end

//@item decodeme/src/stringtable.rs :: impl StringRef :: fn to_string
//@props C08
//@params Ghost(f): Ghost<nat>
//@rw $r:place . write_to_string ( $$x ) ==> $r . write_to_string ( $x , Ghost ( f ) )
//@rw StringRef { $$b } . to_string ( ) ==> StringRef { $b } . to_string ( Ghost ( ( f - 1 ) as nat ) )
//@rw $r:place . to_string ( ) ==> $r . to_string ( Ghost ( ( f - 1 ) as nat ) )
//@ret r
//@spec
    requires text(*self, f) is Some,
    ensures encode_utf8(r@) == text(*self, f).unwrap(), //# C08
            resolve(self.table.index@, self.id) is None ==> encode_utf8(r@) == unknown(), //# C09
    decreases f,
//@start
    let ghost d = self.table.string_data@;
    let ghost ix = self.table.index@;
    proof { encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty()); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
//@before let terminator_pos
    proof {
        let p = resolve(ix, self.id).unwrap();
        lemma_terminated(d, ix, p, f);
        let w = choose|i: int| p <= i < d.len() && #[trigger] d[i] == 0xFF;
        assert(slice_to_search@ == d.subrange(p, d.len() as int));
        assert(slice_to_search@[w - p] == d[w]);
    }
//@before let first_byte
    proof {
        let p = resolve(ix, self.id).unwrap();
        let r0 = d.subrange(p, d.len() as int);
        let n = terminator_pos as int;
        let lit = r0.subrange(0, n);
        assert(slice_to_search@ == r0);
        assert(d[p] == r0[0] && d[p + n] == r0[n]);
        assert(n > 0 ==> r0[0] != 0xFF);
        if n == 9 && d[p] == 0xFE {
            assert(r0.subrange(1, 9) =~= d.subrange(p + 1, p + 9));
            assert(text_at(d, ix, p + 9, (f - 1) as nat) == Some(Seq::<u8>::empty()));
            let t = text_id(d, ix, StringId(le64(d.subrange(p + 1, p + 9)) as u64), (f - 1) as nat).unwrap();
            assert(t + Seq::<u8>::empty() =~= t);
        }
        if valid_utf8(lit) {
            lemma_valid_bytes(lit);
            assert forall|i: int| 0 <= i < n implies !is_mark()(#[trigger] r0[i]) by { assert(lit[i] == r0[i]); }
            lemma_first_pos_unique(r0, is_mark(), n);
            assert(n > 0 ==> lit[0] == d[p]);
            assert(n > 0 ==> text_at(d, ix, p + n, (f - 1) as nat) == Some(Seq::<u8>::empty()));
            assert(lit + Seq::<u8>::empty() =~= lit);
        }
    }
//@before Cow :: from ( output )
    proof { assert(encode_utf8(Seq::<char>::empty()) + text(*self, f).unwrap() =~= text(*self, f).unwrap()); }
//@end
}
//@item decodeme/src/stringtable.rs :: const INDEX_ENTRY_SIZE
//@rw std :: mem :: size_of :: < StringId > ( ) ==> 8
//@rw std :: mem :: size_of :: < Addr > ( ) ==> 8
//@end
//@item decodeme/src/stringtable.rs :: fn deserialize_index_entry
//@ret r
//@spec
    requires bytes@.len() == 16,
    ensures r.0 == entry_id(bytes@), r.1 == entry_addr(bytes@), //# C09
//@end
proof fn lemma_index_step(b: Seq<u8>, k: int)
    requires 0 <= k, k * 16 + 16 <= b.len(),
    ensures ({ let e = b.subrange(k * 16, k * 16 + 16);
        index_map(b.subrange(0, (k + 1) * 16)) == index_map(b.subrange(0, k * 16)).insert(entry_id(e), entry_addr(e)) })
{
    let e = b.subrange(k * 16, k * 16 + 16);
    lemma_index_push(b.subrange(0, k * 16), e);
    assert(b.subrange(0, (k + 1) * 16) =~= b.subrange(0, k * 16) + e);
}
/// slice.chunks(n)
#[verifier::external_body]
pub fn vx_chunks<'a>(s: &'a [u8], n: usize) -> (r: Vec<&'a [u8]>)
    requires n > 0,
    ensures r@.len() == (s@.len() + n - 1) / n as int,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(i * n, if (i + 1) * n <= s@.len() { (i + 1) * n } else { s@.len() as int }),
{ unimplemented!() }

/// `.chunks(n).map(deserialize_index_entry).collect()`
pub fn vx_index_collect(ib: &[u8], n: usize) -> (m: FxHashMap<StringId, Addr>)
    requires n == 16, ib@.len() % 16 == 0,
    ensures m@ == index_map(ib@)
{
    let cs = vx_chunks(ib, n);
    let mut m = FxHashMap::default();
    proof { axiom_slice_len(ib); }
    for c in it: cs.iter()
        invariant
            cs@.len() * 16 == ib@.len(),
            forall|i: int| 0 <= i < cs@.len() ==> (#[trigger] cs@[i])@ == ib@.subrange(i * 16, i * 16 + 16),
            m@ == index_map(ib@.subrange(0, it.index@ * 16)),
    {
        let ghost k = it.index@;
        proof { lemma_index_step(ib@, k); assert(cs@[k]@.len() == 16); }
        let kv = deserialize_index_entry(*c);
        m.insert(kv.0, kv.1);
    }
    proof { assert(ib@.subrange(0, ib@.len() as int) =~= ib@); }
    m
}

impl StringTable {
//@item decodeme/src/stringtable.rs :: impl StringTable :: fn new
//@rw $x:place . chunks ( $$n ) . map ( deserialize_index_entry ) . collect ( ) ==> vx_index_collect ( $x , $n )
//@rw $x:place . chunks ( $$n ) . map ( | $c:id | deserialize_index_entry ( $c ) ) . collect ( ) ==> vx_index_collect ( $x , $n )
//@rw $x:place . chunks_exact ( $$n ) . map ( deserialize_index_entry ) . collect ( ) ==> vx_index_collect ( $x , $n )
//@ret r
//@spec
    requires header_ok(index_data@, FILE_MAGIC_STRINGTABLE_INDEX@) ==> index_data@.len() % 16 == 8,
    ensures
        r is Ok <==> header_ok(string_data@, FILE_MAGIC_STRINGTABLE_DATA@) && header_ok(index_data@, FILE_MAGIC_STRINGTABLE_INDEX@), //# C11
        r matches Ok(t) ==> t.string_data@ == string_data@, //# C08, C09
        r matches Ok(t) ==> t.index@ == index_map(index_data@.subrange(8, index_data@.len() as int)), //# C09
//@end
//@item decodeme/src/stringtable.rs :: impl StringTable :: fn get
//@ret r
//@spec
    ensures r.id == id, *r.table == *self, //# C08, C09
//@end
//@item decodeme/src/stringtable.rs :: impl StringTable :: fn get_metadata
//@ret r
//@spec
    ensures r.id.0 == METADATA_STRING_ID, *r.table == *self, //# C09
//@end
}
} // verus!
