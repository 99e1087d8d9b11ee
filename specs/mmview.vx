// C22: mmview
//@include _base.vx
//@include _time.vx
//@include _text.vx
//@include _rawopaque.vx
//@include _payload.vx contracts payload
//@include _event.vx contracts payload
//@include _header.vx
//@include _fullev.vx
//@include _tool.vx
//@include _fmt.vx
fn main() {}
//@grw $x:recv . map_or ( $$d , | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => $d } )
//@grw $x:recv . is_some_and ( | $p:id | $$b ) ==> ( match $x { Some ( $p ) => { $b } , None => false } )
//@grw Box < dyn Error + Send + Sync >> ==> VxError >
//@grw $x:recv . duration_since ( $$a ) . unwrap_or ( $$b ) ==> ( match $x . duration_since ( $a ) { Ok ( vx_d ) => vx_d , Err ( _ ) => $b } )
//@grw $x:recv . duration_since ( $$a ) . unwrap_or_default ( ) ==> ( match $x . duration_since ( $a ) { Ok ( vx_d ) => vx_d , Err ( _ ) => Duration :: default ( ) } )
//@grw Opt :: parse ( ) ==> vx_parse ( )
//@grw vx_print ( $$x ) ==> vx_out . vx_print ( $x )
//@grw $x:recv . additional_data . join ( $$s ) ==> vx_join ( & $x . additional_data , $s )
verus! {
//@item mmview/src/main.rs :: struct Opt
//@end
pub uninterp spec fn command_line() -> Opt;
#[verifier::external_body]
pub fn vx_parse() -> (r: Opt) ensures r == command_line() { unimplemented!() }
/// standard output
#[verifier::external_body]
pub struct VxOut { x: u8 }
impl View for VxOut { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxOut {
    #[verifier::external_body]
    pub fn vx_print(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
/// [T]::join
pub open spec fn joined(a: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases a.len()
{ if a.len() == 0 { Seq::empty() } else if a.len() == 1 { a[0] } else { joined(a.drop_last(), sep) + sep + a.last() } }
#[verifier::external_body]
pub fn vx_join(a: &Vec<Cow<'_, str>>, sep: &str) -> (r: String)
    ensures r@ == joined(a@.map_values(|c: Cow<'_, str>| c@), sep@)
{ unimplemented!() }

/// whole microseconds since, 0 for earlier times
pub open spec fn micros(t: int, since: int) -> int { if t >= since { (t - since) / 1000 } else { 0 } }
//@item mmview/src/main.rs :: fn system_time_to_micros_since
//@ret r
//@spec
    ensures r as int == micros(t@, since@), //# C22
//@end
pub open spec fn shown_payload(p: EventPayload, since: int) -> Seq<char> {
    match p {
        EventPayload::Timestamp(Timestamp::Instant(t)) => dec(micros(t@, since)) + " μs"@,
        EventPayload::Timestamp(Timestamp::Interval { start, end }) => dec(micros(start@, since)) + " μs - "@ + dec(micros(end@, since)) + " μs"@,
        EventPayload::Integer(i) => dec(i as int),
    }
}
pub open spec fn shown_event(e: FEv, since: int) -> Seq<char> {
    "{\n    kind: "@ + e.kind + ",\n    label: "@ + e.label + ",\n    additional_data: ["@ + joined(e.args, ","@) + "],\n    payload: "@ + shown_payload(e.payload, since)
        + ",\n    thread_id: "@ + dec(e.thread as int) + ",\n}"@ + "\n"@
}
impl<'a> VxShow for Cow<'a, str> { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_show_to(&self, o: &mut String) { unimplemented!() } }
//@item mmview/src/main.rs :: fn print_event
//@params vx_out: &mut VxOut
//@spec
    ensures final(vx_out)@ == old(vx_out)@ + shown_event(event@, global_start_time@), //# C22
//@before vx_out . vx_print ( $$x ) ;
    proof { assert(vx_f@ =~= shown_event(event@, global_start_time@)); } //# C22
//@end
pub open spec fn earlier(a: Option<int>, e: FEv) -> Option<int> {
    if !timed(e) { a } else { match a { None => Some(st(e)), Some(x) => Some(if st(e) < x { st(e) } else { x }) } }
}
/// the earliest start of the first n events
pub open spec fn earliest(s: Seq<FEv>, n: int) -> Option<int>
    decreases n
{ if n <= 0 { None } else { earlier(earliest(s, n - 1), s[n - 1]) } }
pub proof fn lemma_earliest(s: Seq<FEv>, n: int)
    requires 0 <= n <= s.len(),
    ensures
        forall|i: int| 0 <= i < n && timed(#[trigger] s[i]) ==> (earliest(s, n) matches Some(x) && x <= st(s[i])), //# C22
        earliest(s, n) matches Some(x) ==> exists|i: int| 0 <= i < n && timed(#[trigger] s[i]) && st(s[i]) == x, //# C22
    decreases n
{ if n > 0 { lemma_earliest(s, n - 1); } }
pub open spec fn selected(o: Opt, e: FEv) -> bool { match o.thread_id { Some(t) => e.thread == t, None => true } }
/// the events of the requested thread, in order
pub open spec fn listing(o: Opt, s: Seq<FEv>, n: int, since: int) -> Seq<char>
    decreases n
{ if n <= 0 { Seq::empty() } else if selected(o, s[n - 1]) { listing(o, s, n - 1, since) + shown_event(s[n - 1], since) } else { listing(o, s, n - 1, since) } }
pub open spec fn since(p: ProfilingData) -> int { match earliest(p.events(), p.events().len() as int) { Some(x) => x, None => 0 } }
pub open spec fn all_light(s: Seq<FEv>, v: Seq<LightweightEvent>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> is_light(s, #[trigger] v[i], i) }
pub open spec fn view_opt(t: Option<SystemTime>) -> Option<int> { match t { Some(x) => Some(x@), None => None } }
//@item mmview/src/main.rs :: fn main
//@name mmview_main
//@params vx_out: &mut VxOut
//@start
    hide(shown_event);
//@rw eprintln ! $x ; ==>
//@rw print_event ( $$a , $$b ) ==> print_event ( $a , $b , vx_out )
//@rw $x:recv . iter ( ) . filter_map ( | $e:id | $$f ) . min ( ) ==> { let vx_all = $x . iter ( ) ; let mut vx_m : Option < SystemTime > = None ; let mut vx_i : usize = 0 ; while vx_i < vx_all . len ( ) invariant all_light ( $x . events ( ) , vx_all @ ) , 0 <= vx_i <= vx_all @ . len ( ) , view_opt ( vx_m ) == earliest ( $x . events ( ) , vx_i as int ) , decreases vx_all @ . len ( ) - vx_i { let $e = & vx_all [ vx_i ] ; let vx_s = $f ; match vx_s { Some ( vx_t ) => { vx_m = Some ( match vx_m { Some ( vx_o ) => Ord :: min ( vx_o , vx_t ) , None => vx_t } ) ; } None => { } } vx_i += 1 ; } vx_m }
//@rw for $v:id in $x:recv . iter ( ) $inv $body ==> { let vx_es = $x . iter ( ) ; let mut vx_k : usize = 0 ; while vx_k < vx_es . len ( ) $inv { let $v = & vx_es [ vx_k ] ; proof { lemma_listing ( opt , $x . events ( ) , vx_k as int , since ( $x ) , out0 ) ; } vx_k += 1 ; $body } }
//@rw & event ==> event
//@ret r
//@spec
    ensures r is Ok ==> final(vx_out)@ == old(vx_out)@ + listing(command_line(), profile_at(command_line().file_prefix).events(), profile_at(command_line().file_prefix).events().len() as int, since(profile_at(command_line().file_prefix))), //# C22
//@loop 0
    invariant
        opt == command_line(), all_light(data.events(), vx_es@), 0 <= vx_k <= vx_es@.len(),
        global_start_time@ == since(data),
        vx_out@ == out0 + listing(opt, data.events(), vx_k as int, since(data)), //# C22
    decreases vx_es@.len() - vx_k
//@before for
    let ghost out0 = vx_out@;
    proof { assert(out0 + Seq::<char>::empty() =~= out0); }
//@end
pub proof fn lemma_listing(o: Opt, s: Seq<FEv>, n: int, t: int, out: Seq<char>)
    requires 0 <= n < s.len(),
    ensures
        selected(o, s[n]) ==> out + listing(o, s, n + 1, t) == out + listing(o, s, n, t) + shown_event(s[n], t), //# C22
        !selected(o, s[n]) ==> listing(o, s, n + 1, t) == listing(o, s, n, t), //# C22
{ hide(shown_event); assert(out + (listing(o, s, n, t) + shown_event(s[n], t)) =~= out + listing(o, s, n, t) + shown_event(s[n], t)); }
} // verus!
