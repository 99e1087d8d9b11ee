// The part of JSON (RFC 8259) the metadata needs: string literals.
verus! {
pub open spec fn hex_val(c: char) -> int {
    if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 }
    else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
/// the four hex digits at t[0..4]
pub open spec fn hex4(t: Seq<char>) -> int {
    if t.len() < 4 || hex_val(t[0]) < 0 || hex_val(t[1]) < 0 || hex_val(t[2]) < 0 || hex_val(t[3]) < 0 { -1 }
    else { hex_val(t[0]) * 4096 + hex_val(t[1]) * 256 + hex_val(t[2]) * 16 + hex_val(t[3]) }
}
/// one character of a string literal: the character and how much of the text it takes; 0 if there is none
pub open spec fn json_char(t: Seq<char>) -> (char, int) {
    if t.len() == 0 || t[0] == '"' || (t[0] as u32) < 0x20 { ('?', 0) }
    else if t[0] != '\\' { (t[0], 1) }
    else if t.len() < 2 { ('?', 0) }
    else if t[1] == '"' || t[1] == '\\' || t[1] == '/' { (t[1], 2) }
    else if t[1] == 'b' { ('\u{8}', 2) } else if t[1] == 'f' { ('\u{c}', 2) } else if t[1] == 'n' { ('\n', 2) }
    else if t[1] == 'r' { ('\r', 2) } else if t[1] == 't' { ('\t', 2) }
    else if t[1] == 'u' {
        let a = hex4(t.skip(2));
        if a < 0 || (0xDC00 <= a && a < 0xE000) { ('?', 0) }
        else if a < 0xD800 || a >= 0xE000 { ((a as u32) as char, 6) }
        else if t.len() < 12 || t[6] != '\\' || t[7] != 'u' { ('?', 0) }
        else {
            let b = hex4(t.skip(8));
            if 0xDC00 <= b && b < 0xE000 { (((0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)) as u32) as char, 12) } else { ('?', 0) }
        }
    }
    else { ('?', 0) }
}
/// the text between the quotes of a string literal, decoded
pub open spec fn json_text(t: Seq<char>) -> Option<Seq<char>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else {
        let (c, n) = json_char(t);
        if n <= 0 { None } else { match json_text(t.skip(n)) { Some(r) => Some(seq![c] + r), None => None } }
    }
}
/// decoding is compositional
pub proof fn lemma_json_concat(a: Seq<char>, b: Seq<char>)
    requires json_text(a) is Some, json_text(b) is Some,
    ensures json_text(a + b) == Some(json_text(a)->Some_0 + json_text(b)->Some_0),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(json_text(a)->Some_0 + json_text(b)->Some_0 =~= json_text(b)->Some_0);
    } else {
        let (c, n) = json_char(a);
        lemma_json_char_len(a);
        lemma_json_char_concat(a, b);
        assert((a + b).skip(n) =~= a.skip(n) + b);
        lemma_json_concat(a.skip(n), b);
        let r = json_text(a.skip(n))->Some_0;
        assert((seq![c] + r) + json_text(b)->Some_0 =~= seq![c] + (r + json_text(b)->Some_0));
    }
}
proof fn lemma_json_char_len(t: Seq<char>)
    ensures 0 <= json_char(t).1 <= t.len(),
{ }
proof fn lemma_json_char_concat(a: Seq<char>, b: Seq<char>)
    requires json_char(a).1 > 0,
    ensures json_char(a + b) == json_char(a),
{
    let t = a + b;
    assert(t[0] == a[0]);
    if a[0] == '\\' {
        assert(t[1] == a[1]);
        if a[1] == 'u' {
            assert(a.skip(2).len() >= 4);
            assert forall|i: int| 0 <= i < 4 implies #[trigger] t.skip(2)[i] == a.skip(2)[i] by {}
            let h = hex4(a.skip(2));
            assert(hex4(t.skip(2)) == h);
            if 0xD800 <= h && h < 0xDC00 {
                assert(a.skip(8).len() >= 4);
                assert forall|i: int| 0 <= i < 4 implies #[trigger] t.skip(8)[i] == a.skip(8)[i] by {}
            }
        }
    }
}
pub proof fn lemma_json_one(t: Seq<char>, c: char)
    requires t.len() > 0, json_char(t) == (c, t.len() as int),
    ensures json_text(t) == Some(seq![c]),
{
    assert(t.skip(t.len() as int) =~= Seq::<char>::empty());
    assert(json_text(t.skip(t.len() as int)) == Some(Seq::<char>::empty()));
    assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
}
} // verus!
