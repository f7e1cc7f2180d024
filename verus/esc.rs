//! The meaning of `esc` and why text escaped with it cannot break out of its context and can be recovered (C12).
use vstd::prelude::*;

verus! {

pub open spec fn is_special(c: u8) -> bool { c == 34 || c == 38 || c == 39 || c == 60 || c == 62 }

/// the entity of a special byte; ENTITIES is checked against the table the verifier uses (vc/lemmas.py)
pub open spec fn ent(c: u8) -> Seq<u8> {
    if c == 34 { seq![38u8, 113, 117, 111, 116, 59] }        // &quot;
    else if c == 38 { seq![38u8, 97, 109, 112, 59] }         // &amp;
    else if c == 39 { seq![38u8, 35, 51, 57, 59] }           // &#39;
    else if c == 60 { seq![38u8, 108, 116, 59] }             // &lt;
    else if c == 62 { seq![38u8, 103, 116, 59] }             // &gt;
    else { seq![c] }
}

pub open spec fn esc(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { ent(s[0]) + esc(s.skip(1)) }
}

/// b starts with the entity of c
pub open spec fn starts(b: Seq<u8>, c: u8) -> bool {
    b.len() >= ent(c).len() && b.subrange(0, ent(c).len() as int) == ent(c)
}

/// an HTML reader that knows the five entities; an ampersand that begins none of them stays
pub open spec fn unesc(b: Seq<u8>) -> Seq<u8>
    decreases b.len()
{
    if b.len() == 0 { Seq::empty() }
    else if starts(b, 34) { seq![34u8] + unesc(b.skip(6)) }
    else if starts(b, 38) { seq![38u8] + unesc(b.skip(5)) }
    else if starts(b, 39) { seq![39u8] + unesc(b.skip(5)) }
    else if starts(b, 60) { seq![60u8] + unesc(b.skip(4)) }
    else if starts(b, 62) { seq![62u8] + unesc(b.skip(4)) }
    else { seq![b[0]] + unesc(b.skip(1)) }
}

/// what text may contain when it stands in element content or in a quoted attribute value
pub open spec fn harmless(b: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < b.len() ==> b[i] != 60 && b[i] != 62 && b[i] != 34 && b[i] != 39
        && (#[trigger] b[i] == 38 ==> starts(b.skip(i), 34) || starts(b.skip(i), 38) || starts(b.skip(i), 39) || starts(b.skip(i), 60) || starts(b.skip(i), 62))
}

proof fn skip_head(c: u8, t: Seq<u8>)
    ensures (ent(c) + t).skip(ent(c).len() as int) == t, starts(ent(c) + t, c) || !is_special(c),
{
    assert((ent(c) + t).skip(ent(c).len() as int) =~= t);
    assert((ent(c) + t).subrange(0, ent(c).len() as int) =~= ent(c));
}

/// two entities are never prefixes of one text
proof fn one_entity(b: Seq<u8>, c: u8, d: u8)
    requires is_special(c), is_special(d), starts(b, c), starts(b, d),
    ensures c == d,
{
    assert(b.subrange(0, ent(c).len() as int)[1] == b[1]);
    assert(b.subrange(0, ent(d).len() as int)[1] == b[1]);
}

/// decoding the escaped text gives back the text
pub proof fn recovers(s: Seq<u8>)
    ensures unesc(esc(s)) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s[0]; let t = s.skip(1); let b = esc(s);
        recovers(t);
        skip_head(c, esc(t));
        assert(s =~= seq![c] + t);
        if is_special(c) {
            assert(starts(b, c));
            if starts(b, 34) { one_entity(b, c, 34); }
            if starts(b, 38) { one_entity(b, c, 38); }
            if starts(b, 39) { one_entity(b, c, 39); }
            if starts(b, 60) { one_entity(b, c, 60); }
            if starts(b, 62) { one_entity(b, c, 62); }
        } else {
            assert(b[0] == c && c != 38);
            if starts(b, 34) { assert(b.subrange(0, 6)[0] == b[0]); }
            if starts(b, 38) { assert(b.subrange(0, 5)[0] == b[0]); }
            if starts(b, 39) { assert(b.subrange(0, 5)[0] == b[0]); }
            if starts(b, 60) { assert(b.subrange(0, 4)[0] == b[0]); }
            if starts(b, 62) { assert(b.subrange(0, 4)[0] == b[0]); }
        }
    } else { assert(s =~= Seq::<u8>::empty()); }
}

/// escaped text contains nothing that ends the context it stands in
pub proof fn contained(s: Seq<u8>)
    ensures harmless(esc(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s[0]; let t = s.skip(1); let b = esc(s); let r = esc(t); let k = ent(c).len() as int;
        contained(t);
        skip_head(c, r);
        assert forall|i: int| 0 <= i < b.len() implies b[i] != 60 && b[i] != 62 && b[i] != 34 && b[i] != 39
            && (#[trigger] b[i] == 38 ==> starts(b.skip(i), 34) || starts(b.skip(i), 38) || starts(b.skip(i), 39) || starts(b.skip(i), 60) || starts(b.skip(i), 62)) by {
            if i < k {
                assert(b[i] == ent(c)[i]);
                if b[i] == 38 { assert(i == 0); assert(b.skip(0) =~= b); assert(starts(b, c)); }
            } else {
                assert(b[i] == r[i - k]);
                assert(b.skip(i) =~= r.skip(i - k));
            }
        }
    }
}

/// texts rendered one after the other are the rendering of the texts in one piece (C09, C10, C16, C18)
pub proof fn concatenates(a: Seq<u8>, b: Seq<u8>)
    ensures esc(a + b) == esc(a) + esc(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(esc(a) + esc(b) =~= esc(b)); }
    else {
        concatenates(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert(ent(a[0]) + (esc(a.skip(1)) + esc(b)) =~= (ent(a[0]) + esc(a.skip(1))) + esc(b));
    }
}

/// text without special bytes is rendered as it is (digits, NaN, inf, true, false, class names)
pub proof fn identity(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> !is_special(#[trigger] s[i]),
    ensures esc(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies !is_special(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        identity(s.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1));
    } else { assert(s =~= Seq::<u8>::empty()); }
}

/// nothing that is escaped twice looks like something escaped once: escaping is injective
pub proof fn injective(a: Seq<u8>, b: Seq<u8>)
    requires esc(a) == esc(b),
    ensures a == b,
{ recovers(a); recovers(b); }

// ---- the lemmas the verifier assumes about its specification functions (vc/mem.py Spec, vc/exec.py lemmas, vc/loops.py, vc/bufspec.py) ----

/// cnt(s, a): special bytes among the first a
pub open spec fn cnt(s: Seq<u8>, a: int) -> int
    decreases a
{
    if a <= 0 { 0 } else { cnt(s, a - 1) + if is_special(s[a - 1]) { 1int } else { 0int } }
}
/// elen(s, a): length of the escaped form of the first a bytes
pub open spec fn elen(s: Seq<u8>, a: int) -> int
    decreases a
{
    if a <= 0 { 0 } else { elen(s, a - 1) + ent(s[a - 1]).len() }
}
/// piece(s, a, b): the rope segment ('esc', s, a, b)
pub open spec fn piece(s: Seq<u8>, a: int, b: int) -> Seq<u8> { esc(s.subrange(a, b)) }

/// cnt(a) <= a and a <= elen(a) <= 6a
pub proof fn bounds(s: Seq<u8>, a: int)
    requires 0 <= a <= s.len(),
    ensures 0 <= cnt(s, a) <= a, a <= elen(s, a) <= 6 * a,
    decreases a,
{ if a > 0 { bounds(s, a - 1); } }

/// monotone; equal counts mean that nothing grew in between
pub proof fn monotone(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures cnt(s, a) <= cnt(s, b), elen(s, a) <= elen(s, b), elen(s, b) - elen(s, a) >= b - a,
        cnt(s, a) == cnt(s, b) ==> elen(s, b) - elen(s, a) == b - a,
    decreases b - a,
{ if a < b { monotone(s, a, b - 1); } }

/// different counts have a witness
pub proof fn witness(s: Seq<u8>, a: int, b: int) -> (w: int)
    requires 0 <= a <= b <= s.len(), cnt(s, a) != cnt(s, b),
    ensures a <= w < b, is_special(s[w]),
    decreases b - a,
{ if is_special(s[b - 1]) { b - 1 } else { witness(s, a, b - 1) } }

/// a special byte in between makes the counts differ
pub proof fn counted(s: Seq<u8>, a: int, w: int, b: int)
    requires 0 <= a <= w < b <= s.len(), is_special(s[w]),
    ensures cnt(s, a) < cnt(s, b),
{ monotone(s, a, w); monotone(s, w + 1, b); }

/// one byte further
pub proof fn step(s: Seq<u8>, a: int)
    requires 0 <= a < s.len(),
    ensures cnt(s, a + 1) == cnt(s, a) + if is_special(s[a]) { 1int } else { 0int }, elen(s, a + 1) == elen(s, a) + ent(s[a]).len(),
        piece(s, a, a + 1) == ent(s[a]),
{
    let t = s.subrange(a, a + 1);
    assert(t.skip(1) =~= Seq::<u8>::empty());
    assert(esc(t.skip(1)) =~= Seq::<u8>::empty());
    assert(t[0] == s[a]);
    assert(esc(t) == ent(t[0]) + esc(t.skip(1)));
    assert(ent(t[0]) + Seq::<u8>::empty() =~= ent(t[0]));
}

/// adjacent pieces merge
pub proof fn merges(s: Seq<u8>, a: int, b: int, c: int)
    requires 0 <= a <= b <= c <= s.len(),
    ensures piece(s, a, b) + piece(s, b, c) == piece(s, a, c), s.subrange(a, b) + s.subrange(b, c) == s.subrange(a, c),
{
    concatenates(s.subrange(a, b), s.subrange(b, c));
    assert(s.subrange(a, b) + s.subrange(b, c) =~= s.subrange(a, c));
}

/// the length of a piece
pub proof fn length(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures piece(s, a, b).len() == elen(s, b) - elen(s, a),
    decreases b - a,
{
    if a == b { assert(s.subrange(a, b) =~= Seq::<u8>::empty()); }
    else { length(s, a, b - 1); step(s, b - 1); merges(s, a, b - 1, b); }
}

/// a part without special bytes is its own escaped form
pub proof fn plain(s: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), cnt(s, a) == cnt(s, b),
    ensures piece(s, a, b) == s.subrange(a, b),
{
    let t = s.subrange(a, b);
    assert forall|i: int| 0 <= i < t.len() implies !is_special(#[trigger] t[i]) by {
        if is_special(t[i]) { assert(s[a + i] == t[i]); counted(s, a, a + i, b); }
    }
    identity(t);
}

} // verus!
fn main() {}
