pub uninterp spec fn c_isspace(c: int) -> bool;
pub uninterp spec fn c_isalnum(c: int) -> bool;

// text up to the terminator
pub open spec fn c_text(s: Seq<i8>) -> Seq<i8>
  decreases s.len()
{
  if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + c_text(s.drop_first()) }
}
pub broadcast proof fn lemma_c_text(s: Seq<i8>)
  ensures (#[trigger] c_text(s)).len() <= s.len(), s.len() > 0 && s[0] != 0 ==> c_text(s).len() > 0
  decreases s.len()
{
  reveal_with_fuel(c_text, 2);
  if s.len() > 0 { lemma_c_text(s.drop_first()); }
}
// the text from one position to another starts with str (up to its terminator)
pub open spec fn skipped(txt: Seq<i8>, str: Seq<i8>, from: int, to: int) -> bool {
  &&& from <= to <= from + str.len()
  &&& to == from + str.len() || str[to - from] == 0
  &&& forall|i: int| from <= i < to ==> #[trigger] txt[i] == str[i - from]
}
// positions in the text
pub open spec fn within(it: int, end: int, txt: Seq<i8>) -> bool {
  0 <= it <= end <= txt.len() && txt.len() < 0x7fffffff
}

// ---- keys ----
pub open spec fn named(k: u16) -> bool { k != 0 && k != 0xF001 }
// pressed without being released: timeouts and terminal commands
pub open spec fn exempt(k: u16) -> bool { k == 0xF001 || k == 0 || (0xF200 <= k && k <= 0xF2FF) }
#[verifier::opaque]
pub open spec fn all_named(s: Seq<u16>) -> bool { forall|i: int| 0 <= i < s.len() ==> named(#[trigger] s[i]) }
pub open spec fn typed_ok(s: Seq<(u16, i32, u16)>) -> bool { forall|i: int| 0 <= i < s.len() ==> named((#[trigger] s[i]).0) }

pub broadcast proof fn lemma_named_at(s: Seq<u16>, i: int)
  requires #[trigger] all_named(s), 0 <= i < s.len()
  ensures named(#[trigger] s[i])
{ reveal(all_named); }
pub broadcast proof fn lemma_named_push(s: Seq<u16>, k: u16)
  ensures #[trigger] all_named(s.push(k)) <==> all_named(s) && named(k)
{
  reveal(all_named);
  if all_named(s.push(k)) {
    assert forall|i: int| 0 <= i < s.len() implies named(#[trigger] s[i]) by { assert(s.push(k)[i] == s[i]); }
    assert(s.push(k)[s.len() as int] == k);
  }
}
pub broadcast proof fn lemma_named_drop(s: Seq<u16>)
  requires all_named(s), s.len() > 0
  ensures #[trigger] all_named(s.drop_last())
{ reveal(all_named); }
pub broadcast proof fn lemma_named_empty(s: Seq<u16>)
  requires s.len() == 0
  ensures #[trigger] all_named(s)
{ reveal(all_named); }
pub broadcast proof fn lemma_named_filter(s: Seq<u16>, p: spec_fn(u16) -> bool)
  requires all_named(s)
  ensures #[trigger] all_named(seq_filter(s, p))
  decreases s.len()
{
  reveal(all_named);
  broadcast use crate::pre::lemma_seq_filter;
  assert forall|i: int| 0 <= i < seq_filter(s, p).len() implies named(#[trigger] seq_filter(s, p)[i]) by {
    assert(seq_filter(s, p).contains(seq_filter(s, p)[i]));
  }
}

// ---- events of an expression ----
pub open spec fn ev_ok(input: bool, e: KeyEvent) -> bool {
  if input { (e.state <= 5 || e.state == 9) && (e.state == 5 <==> e.key == 0) && (e.state == 9 ==> e.key == 0xF001) }
  else { (e.state <= 2 || (e.state == 6 && e.key == 0)) && (e.key == 0xF001 ==> e.state == 1) }
}
#[verifier::opaque]
pub open spec fn events_ok(input: bool, s: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < s.len() ==> ev_ok(input, #[trigger] s[i]) && (s[i].state == 5 ==> i == 0)
}
pub broadcast proof fn lemma_events_push(b: bool, s: Seq<KeyEvent>, e: KeyEvent)
  ensures #[trigger] events_ok(b, s.push(e)) <==> events_ok(b, s) && ev_ok(b, e) && (e.state == 5 ==> s.len() == 0)
{
  reveal(events_ok);
  if events_ok(b, s.push(e)) {
    assert forall|i: int| 0 <= i < s.len() implies ev_ok(b, #[trigger] s[i]) && (s[i].state == 5 ==> i == 0) by { assert(s.push(e)[i] == s[i]); }
    assert(s.push(e)[s.len() as int] == e);
  }
}
pub broadcast proof fn lemma_events_drop(b: bool, s: Seq<KeyEvent>)
  requires events_ok(b, s), s.len() > 0
  ensures #[trigger] events_ok(b, s.drop_last())
{ reveal(events_ok); }
pub broadcast proof fn lemma_events_at(b: bool, s: Seq<KeyEvent>, i: int)
  requires #[trigger] events_ok(b, s), 0 <= i < s.len()
  ensures ev_ok(b, #[trigger] s[i]), s[i].state == 5 ==> i == 0
{ reveal(events_ok); }
pub broadcast proof fn lemma_events_empty(b: bool, s: Seq<KeyEvent>)
  requires s.len() == 0
  ensures #[trigger] events_ok(b, s)
{ reveal(events_ok); }

// ---- what an output presses and releases ----
#[verifier::opaque]
pub open spec fn pressed_in(s: Seq<KeyEvent>, k: u16) -> bool {
  exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k && s[i].state == 1
}
pub broadcast proof fn lemma_pressed_push(s: Seq<KeyEvent>, e: KeyEvent, k: u16)
  ensures #[trigger] pressed_in(s.push(e), k) <==> pressed_in(s, k) || (e.key == k && e.state == 1)
{
  reveal(pressed_in);
  if pressed_in(s, k) {
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k && s[i].state == 1;
    assert(s.push(e)[i] == s[i]);
  }
  if e.key == k && e.state == 1 { assert(s.push(e)[s.len() as int] == e); }
  if pressed_in(s.push(e), k) {
    let i = choose|i: int| 0 <= i < s.push(e).len() && (#[trigger] s.push(e)[i]).key == k && s.push(e)[i].state == 1;
    if i < s.len() { assert(s[i] == s.push(e)[i]); }
  }
}
// keys are only released after they were pressed
pub open spec fn ups_ok(s: Seq<KeyEvent>) -> bool
  decreases s.len()
{
  s.len() == 0 || (ups_ok(s.drop_last()) && (s.last().state == 0 ==> pressed_in(s.drop_last(), s.last().key)))
}
pub broadcast proof fn lemma_ups_push(s: Seq<KeyEvent>, e: KeyEvent)
  ensures #[trigger] ups_ok(s.push(e)) <==> ups_ok(s) && (e.state == 0 ==> pressed_in(s, e.key))
{ assert(s.push(e).drop_last() =~= s); }
pub broadcast proof fn lemma_ups_drop(s: Seq<KeyEvent>)
  requires ups_ok(s), s.len() > 0
  ensures #[trigger] ups_ok(s.drop_last())
{ }
// state of a key after the events
pub open spec fn last_state(s: Seq<KeyEvent>, k: u16) -> u16
  decreases s.len()
{
  if s.len() == 0 { 0 } else if s.last().key == k { s.last().state } else { last_state(s.drop_last(), k) }
}
pub broadcast proof fn lemma_last_push(s: Seq<KeyEvent>, e: KeyEvent, k: u16)
  ensures #[trigger] last_state(s.push(e), k) == (if e.key == k { e.state } else { last_state(s, k) })
{ assert(s.push(e).drop_last() =~= s); }
pub open spec fn held(s: Seq<KeyEvent>, k: u16) -> bool { !exempt(k) && last_state(s, k) == 1 }
pub open spec fn holds(keys: Seq<u16>, from: int, k: u16) -> bool { exists|j: int| from <= j < keys.len() && #[trigger] keys[j] == k }
// every key which is held is one the parser remembers as pressed (or still has to process)
#[verifier::opaque]
pub open spec fn covered(s: Seq<KeyEvent>, pressed: Seq<u16>, buffer: Seq<u16>, n: int) -> bool {
  forall|k: u16| #[trigger] held(s, k) ==> holds(pressed, 0, k) || holds(buffer, n, k)
}
#[verifier::opaque]
pub open spec fn downs(s: Seq<KeyEvent>, keys: Seq<u16>, n: int) -> bool {
  forall|j: int| 0 <= j < n && j < keys.len() ==> pressed_in(s, #[trigger] keys[j])
}
// no press follows a release
#[verifier::opaque]
pub open spec fn at_once(s: Seq<KeyEvent>) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]).state == 0 ==> (#[trigger] s[j]).state != 1
}
pub broadcast proof fn lemma_at_once_drop(s: Seq<KeyEvent>)
  requires at_once(s), s.len() > 0
  ensures #[trigger] at_once(s.drop_last())
{ reveal(at_once); }
#[verifier::opaque]
pub open spec fn released(s: Seq<KeyEvent>) -> bool { forall|k: u16| !(#[trigger] held(s, k)) }

// ---- results ----
pub open spec fn has_down(s: Seq<KeyEvent>) -> bool {
  exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).state == 1 && s[i].key != 0xF001
}
pub open spec fn input_expression(s: Seq<KeyEvent>) -> bool {
  &&& events_ok(true, s)
  &&& s.len() > 0
  &&& has_down(s) || (s.len() == 1 && s[0].key == 0xF002)
  &&& s[0].state == 5 ==> s.len() > 1
}
pub open spec fn output_expression(s: Seq<KeyEvent>) -> bool {
  events_ok(false, s) && ups_ok(s) && (released(s) || at_once(s))
}
pub open spec fn seq_ok(s: ParseKeySequence) -> bool {
  &&& events_ok(s.m_is_input, s.m_sequence)
  &&& all_named(s.m_key_buffer) && all_named(s.m_pressed_keys)
  &&& !s.m_is_input ==> ups_ok(s.m_sequence) && downs(s.m_sequence, s.m_pressed_keys, s.m_pressed_keys.len() as int)
}
pub open spec fn ok(s: ParseKeySequence) -> bool {
  seq_ok(s) && (!s.m_is_input ==> covered(s.m_sequence, s.m_pressed_keys, Seq::empty(), 0))
}
pub broadcast proof fn lemma_downs_push(s: Seq<KeyEvent>, e: KeyEvent, keys: Seq<u16>, n: int)
  requires downs(s, keys, n)
  ensures #[trigger] downs(s.push(e), keys, n)
{ reveal(downs); broadcast use lemma_pressed_push; }
pub broadcast proof fn lemma_downs_next(s: Seq<KeyEvent>, keys: Seq<u16>, n: int)
  requires downs(s, keys, n), 0 <= n < keys.len(), pressed_in(s, keys[n])
  ensures #[trigger] downs(s, keys, n + 1)
{ reveal(downs); }
pub broadcast proof fn lemma_downs_at(s: Seq<KeyEvent>, keys: Seq<u16>, n: int, j: int)
  requires #[trigger] downs(s, keys, n), 0 <= j < n, j < keys.len()
  ensures pressed_in(s, #[trigger] keys[j])
{ reveal(downs); }
pub broadcast proof fn lemma_downs_keys_push(s: Seq<KeyEvent>, keys: Seq<u16>, k: u16, n: int)
  requires downs(s, keys, keys.len() as int), pressed_in(s, k), n == keys.len() + 1
  ensures #[trigger] downs(s, keys.push(k), n)
{ reveal(downs); }
pub broadcast proof fn lemma_downs_keys_drop(s: Seq<KeyEvent>, keys: Seq<u16>, n: int)
  requires downs(s, keys, keys.len() as int), keys.len() > 0, n == keys.len() - 1
  ensures #[trigger] downs(s, keys.drop_last(), n)
{ reveal(downs); }
pub broadcast proof fn lemma_downs_filter(s: Seq<KeyEvent>, keys: Seq<u16>, p: spec_fn(u16) -> bool, n: int)
  requires downs(s, keys, keys.len() as int)
  ensures #[trigger] downs(s, seq_filter(keys, p), n)
{
  reveal(downs);
  broadcast use crate::pre::lemma_seq_filter;
  assert forall|j: int| 0 <= j < n && j < seq_filter(keys, p).len() implies pressed_in(s, #[trigger] seq_filter(keys, p)[j]) by {
    assert(seq_filter(keys, p).contains(seq_filter(keys, p)[j]));
  }
}
pub broadcast proof fn lemma_downs_empty(s: Seq<KeyEvent>, keys: Seq<u16>, n: int)
  requires n <= 0 || keys.len() == 0
  ensures #[trigger] downs(s, keys, n)
{ reveal(downs); }
// ---- covered ----
pub broadcast proof fn lemma_covered_push(s: Seq<KeyEvent>, e: KeyEvent, p: Seq<u16>, b: Seq<u16>, n: int)
  requires covered(s, p, b, n), e.state == 1 && !exempt(e.key) ==> holds(p, 0, e.key) || holds(b, n, e.key)
  ensures #[trigger] covered(s.push(e), p, b, n)
{
  reveal(covered);
  assert forall|k: u16| #[trigger] held(s.push(e), k) implies holds(p, 0, k) || holds(b, n, k) by {
    lemma_last_push(s, e, k);
    if e.key != k { assert(held(s, k)); }
  }
}
pub broadcast proof fn lemma_covered_release(s: Seq<KeyEvent>, e: KeyEvent, p: Seq<u16>, f: spec_fn(u16) -> bool, b: Seq<u16>, n: int)
  requires covered(s, p, b, n), e.state != 1, forall|k: u16| k != e.key ==> #[trigger] f(k)
  ensures #[trigger] covered(s.push(e), seq_filter(p, f), b, n)
{
  reveal(covered);
  crate::pre::lemma_seq_filter(p, f);
  assert forall|k: u16| #[trigger] held(s.push(e), k) implies holds(seq_filter(p, f), 0, k) || holds(b, n, k) by {
    lemma_last_push(s, e, k);
    assert(e.key != k && held(s, k));
    if holds(p, 0, k) {
      let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == k;
      assert(seq_filter(p, f).contains(p[j]));
      let i = choose|i: int| 0 <= i < seq_filter(p, f).len() && seq_filter(p, f)[i] == k;
      assert(seq_filter(p, f)[i] == k);
    }
  }
}
pub broadcast proof fn lemma_covered_release_next(s: Seq<KeyEvent>, e: KeyEvent, p: Seq<u16>, f: spec_fn(u16) -> bool, b: Seq<u16>, m: int)
  requires covered(s, p, b, m - 1), e.state != 1, forall|k: u16| k != e.key ==> #[trigger] f(k), 0 < m <= b.len(), b[m - 1] == e.key
  ensures #[trigger] covered(s.push(e), seq_filter(p, f), b, m)
{
  lemma_covered_release(s, e, p, f, b, m - 1);
  reveal(covered);
  assert forall|k: u16| #[trigger] held(s.push(e), k) implies holds(seq_filter(p, f), 0, k) || holds(b, m, k) by {
    lemma_last_push(s, e, k);
  }
}
pub broadcast proof fn lemma_covered_pop(s: Seq<KeyEvent>, e: KeyEvent, p: Seq<u16>, b: Seq<u16>, n: int)
  requires covered(s, p, b, n), p.len() > 0, e.key == p.last(), e.state != 1
  ensures #[trigger] covered(s.push(e), p.drop_last(), b, n)
{
  reveal(covered);
  assert forall|k: u16| #[trigger] held(s.push(e), k) implies holds(p.drop_last(), 0, k) || holds(b, n, k) by {
    lemma_last_push(s, e, k);
    assert(e.key != k && held(s, k));
    if holds(p, 0, k) {
      let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == k;
      assert(p.drop_last()[j] == k);
    }
  }
}
pub broadcast proof fn lemma_covered_keep(s: Seq<KeyEvent>, p: Seq<u16>, k: u16, b: Seq<u16>, m: int)
  requires covered(s, p, b, m - 1), 0 < m <= b.len(), b[m - 1] == k
  ensures #[trigger] covered(s, p.push(k), b, m)
{
  reveal(covered);
  assert forall|x: u16| #[trigger] held(s, x) implies holds(p.push(k), 0, x) || holds(b, m, x) by {
    if holds(p, 0, x) {
      let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == x;
      assert(p.push(k)[j] == x);
    } else if x == k { assert(p.push(k)[p.len() as int] == x); }
  }
}
pub broadcast proof fn lemma_covered_done(s: Seq<KeyEvent>, p: Seq<u16>, b: Seq<u16>, n: int)
  requires #[trigger] covered(s, p, b, n), n >= b.len()
  ensures covered(s, p, Seq::empty(), 0)
{ reveal(covered); }
pub broadcast proof fn lemma_covered_start(s: Seq<KeyEvent>, p: Seq<u16>, b: Seq<u16>, n: int)
  requires covered(s, p, Seq::empty(), 0)
  ensures #[trigger] covered(s, p, b, n)
{ reveal(covered); }
pub broadcast proof fn lemma_covered_empty(s: Seq<KeyEvent>, p: Seq<u16>, b: Seq<u16>, n: int)
  requires s.len() == 0
  ensures #[trigger] covered(s, p, b, n)
{ reveal(covered); }
pub broadcast proof fn lemma_covered_tap(s: Seq<KeyEvent>, d: KeyEvent, u: KeyEvent, p: Seq<u16>, b: Seq<u16>, n: int)
  requires covered(s, p, b, n), d.key == u.key, u.state != 1
  ensures #[trigger] covered(s.push(d).push(u), p, b, n)
{
  reveal(covered);
  assert forall|k: u16| #[trigger] held(s.push(d).push(u), k) implies holds(p, 0, k) || holds(b, n, k) by {
    lemma_last_push(s.push(d), u, k);
    lemma_last_push(s, d, k);
    assert(u.key != k && held(s, k));
  }
}
pub broadcast proof fn lemma_released(s: Seq<KeyEvent>, p: Seq<u16>)
  requires #[trigger] covered(s, p, Seq::empty(), 0), p.len() == 0
  ensures released(s)
{ reveal(covered); reveal(released); }
// the last event is changed without changing its key and state
pub proof fn lemma_same(s: Seq<KeyEvent>, i: int, e: KeyEvent, k: u16)
  requires i == s.len() - 1, i >= 0, e.key == s[i].key, e.state == s[i].state
  ensures last_state(s.update(i, e), k) == last_state(s, k), pressed_in(s.update(i, e), k) == pressed_in(s, k)
{
  let d = s.drop_last();
  assert(s.update(i, e) =~= d.push(e));
  assert(s =~= d.push(s[i]));
  lemma_last_push(d, e, k); lemma_last_push(d, s[i], k);
  lemma_pressed_push(d, e, k); lemma_pressed_push(d, s[i], k);
}
pub broadcast proof fn lemma_events_update(b: bool, s: Seq<KeyEvent>, i: int, e: KeyEvent)
  requires events_ok(b, s), 0 <= i < s.len(), ev_ok(b, e), e.state != 5
  ensures #[trigger] events_ok(b, s.update(i, e))
{ reveal(events_ok); }
pub broadcast proof fn lemma_ups_update(s: Seq<KeyEvent>, i: int, e: KeyEvent)
  requires ups_ok(s), i == s.len() - 1, i >= 0, e.key == s[i].key, e.state == s[i].state
  ensures #[trigger] ups_ok(s.update(i, e))
{ assert(s.update(i, e).drop_last() =~= s.drop_last()); }
pub broadcast proof fn lemma_downs_update(s: Seq<KeyEvent>, i: int, e: KeyEvent, keys: Seq<u16>, n: int)
  requires downs(s, keys, n), i == s.len() - 1, i >= 0, e.key == s[i].key, e.state == s[i].state
  ensures #[trigger] downs(s.update(i, e), keys, n)
{
  reveal(downs);
  assert forall|j: int| 0 <= j < n && j < keys.len() implies pressed_in(s.update(i, e), #[trigger] keys[j]) by { lemma_same(s, i, e, keys[j]); }
}
pub broadcast proof fn lemma_covered_update(s: Seq<KeyEvent>, i: int, e: KeyEvent, p: Seq<u16>, b: Seq<u16>, n: int)
  requires covered(s, p, b, n), i == s.len() - 1, i >= 0, e.key == s[i].key, e.state == s[i].state
  ensures #[trigger] covered(s.update(i, e), p, b, n)
{
  reveal(covered);
  assert forall|k: u16| #[trigger] held(s.update(i, e), k) implies holds(p, 0, k) || holds(b, n, k) by { lemma_same(s, i, e, k); assert(held(s, k)); }
}
// modifiers of typed text
pub open spec fn mods4() -> Seq<u16> { seq![0xF300u16, 56u16, 100u16, 0xF301u16] }
pub broadcast proof fn lemma_mods4(k: u16)
  requires k == 0xF300 || k == 56 || k == 100 || k == 0xF301
  ensures #[trigger] holds(mods4(), 0, k)
{ assert(mods4()[0] == 0xF300); assert(mods4()[1] == 56); assert(mods4()[2] == 100); assert(mods4()[3] == 0xF301); }
pub open spec fn up_or_kept(s: Seq<KeyEvent>, p: Seq<u16>, k: u16) -> bool { last_state(s, k) != 1 || holds(p, 0, k) }
pub broadcast proof fn lemma_covered_mods(s: Seq<KeyEvent>, p: Seq<u16>)
  requires covered(s, p, mods4(), 0), up_or_kept(s, p, 0xF300), up_or_kept(s, p, 56), up_or_kept(s, p, 100), up_or_kept(s, p, 0xF301)
  ensures #[trigger] covered(s, p, Seq::empty(), 0)
{ reveal(covered); }
pub broadcast proof fn lemma_kept(s: Seq<KeyEvent>, p: Seq<u16>, b: Seq<u16>, n: int, k: u16)
  requires #[trigger] covered(s, p, b, n), n >= b.len(), !exempt(k)
  ensures #[trigger] last_state(s, k) != 1 || holds(p, 0, k)
{ reveal(covered); if last_state(s, k) == 1 { assert(held(s, k)); } }
pub broadcast proof fn lemma_xor(a: i32, b: i32)
  ensures
    ((#[trigger] (a ^ b)) & 1 != 0) == ((a & 1 != 0) != (b & 1 != 0)),
    ((a ^ b) & 2 != 0) == ((a & 2 != 0) != (b & 2 != 0)),
    ((a ^ b) & 4 != 0) == ((a & 4 != 0) != (b & 4 != 0)),
    ((a ^ b) & 8 != 0) == ((a & 8 != 0) != (b & 8 != 0)),
{
  assert(((a ^ b) & 1 != 0) == ((a & 1 != 0) != (b & 1 != 0))) by (bit_vector);
  assert(((a ^ b) & 2 != 0) == ((a & 2 != 0) != (b & 2 != 0))) by (bit_vector);
  assert(((a ^ b) & 4 != 0) == ((a & 4 != 0) != (b & 4 != 0))) by (bit_vector);
  assert(((a ^ b) & 8 != 0) == ((a & 8 != 0) != (b & 8 != 0))) by (bit_vector);
}
pub broadcast proof fn lemma_zero_bits(a: i32)
  requires a == 0
  ensures (#[trigger] (a & 1)) == 0, (a & 2) == 0, (a & 4) == 0, (a & 8) == 0
{
  assert(0i32 & 1 == 0) by (bit_vector); assert(0i32 & 2 == 0) by (bit_vector);
  assert(0i32 & 4 == 0) by (bit_vector); assert(0i32 & 8 == 0) by (bit_vector);
}
pub broadcast group expr_lemmas { lemma_named_at, lemma_named_push, lemma_named_drop, lemma_named_empty, lemma_named_filter, lemma_events_push, lemma_events_drop, lemma_events_at, lemma_events_empty, lemma_pressed_push, lemma_ups_push, lemma_ups_drop, lemma_last_push, lemma_at_once_drop, lemma_downs_push, lemma_downs_next, lemma_downs_at, lemma_downs_keys_push, lemma_downs_keys_drop, lemma_downs_filter, lemma_downs_empty, lemma_covered_push, lemma_covered_release, lemma_covered_release_next, lemma_covered_pop, lemma_covered_keep, lemma_covered_done, lemma_covered_start, lemma_covered_empty, lemma_released, lemma_events_update, lemma_ups_update, lemma_downs_update, lemma_covered_update }
pub broadcast group typing_lemmas { lemma_kept, lemma_xor, lemma_zero_bits, lemma_covered_mods, lemma_mods4, lemma_covered_tap }
