// ---- the input event which triggered an output ----
pub open spec fn last_hard(s: Seq<KeyEvent>, n: int) -> int decreases n {
  if n <= 0 { -1 } else if s[n - 1].state == 0 || s[n - 1].state == 1 { n - 1 } else { last_hard(s, n - 1) }
}
pub open spec fn trigger_event(t: Trig) -> KeyEvent {
  match t {
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V1(e) => e,
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V2(k) => KeyEvent { key: k, state: 1, value: 0 },
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V0(p) => {
      let v = p->Some_0.v;
      if last_hard(v, v.len() as int) >= 0 { v[last_hard(v, v.len() as int)] } else { v.last() }
    },
  }
}
pub open spec fn tkey(t: Trig) -> u16 { trigger_event(t).key }

// ---- keys which are down after a sequence of output events ----
#[verifier::opaque]
pub open spec fn held(base: Keys, b: Seq<KeyEvent>, k: u16) -> bool decreases b.len() {
  if b.len() == 0 { base(k) }
  else if b.last().key == k && b.last().state == 1 { true }
  else if b.last().key == k && b.last().state == 0 { false }
  else { held(base, b.drop_last(), k) }
}
pub broadcast proof fn lemma_held_push(base: Keys, b: Seq<KeyEvent>, e: KeyEvent, k: u16)
  ensures #[trigger] held(base, b.push(e), k) ==
    (if e.key == k && e.state == 1 { true } else if e.key == k && e.state == 0 { false } else { held(base, b, k) })
{
  reveal_with_fuel(held, 2);
  assert(b.push(e).drop_last() =~= b);
}
pub broadcast proof fn lemma_held_pop(base: Keys, b: Seq<KeyEvent>, k: u16)
  requires b.len() > 0, b.last().key != k
  ensures #[trigger] held(base, b.drop_last(), k) == held(base, b, k)
{
  reveal_with_fuel(held, 2);
}
pub broadcast proof fn lemma_held_remove(base: Keys, b: Seq<KeyEvent>, i: int, k: u16)
  requires 0 <= i < b.len(), b[i].key != k
  ensures #[trigger] held(base, b.remove(i), k) == held(base, b, k)
  decreases b.len()
{
  reveal_with_fuel(held, 2);
  let r = b.remove(i);
  if i == b.len() - 1 {
    assert(r =~= b.drop_last());
  } else {
    assert(r.drop_last() =~= b.drop_last().remove(i));
    assert(r.last() == b.last());
    lemma_held_remove(base, b.drop_last(), i, k);
  }
}
pub broadcast proof fn lemma_held_empty(base: Keys, k: u16)
  ensures #[trigger] held(base, Seq::<KeyEvent>::empty(), k) == base(k)
{
  reveal_with_fuel(held, 2);
}
pub open spec fn held_set(base: Keys, b: Seq<KeyEvent>) -> Keys { |k: u16| held(base, b, k) }

// ---- the record of output keys ----
// key k is recorded as pressed
#[verifier::opaque]
pub open spec fn live(o: Seq<Stage_OutputDown>, k: u16) -> bool {
  exists|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released
}
pub broadcast proof fn lemma_live_at(o: Seq<Stage_OutputDown>, j: int, k: u16)
  requires 0 <= j < o.len(), o[j].key == k, !o[j].temporarily_released
  ensures #[trigger] live(o, k), (#[trigger] o[j]).key == k
{
  reveal(live);
}
pub broadcast proof fn lemma_live_push(o: Seq<Stage_OutputDown>, x: Stage_OutputDown, k: u16)
  ensures #[trigger] live(o.push(x), k) == (live(o, k) || (x.key == k && !x.temporarily_released))
{
  reveal(live);
  let n = o.push(x);
  if live(o, k) {
    let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released;
    assert(n[j] == o[j]);
  }
  if x.key == k && !x.temporarily_released { assert(n[o.len() as int] == x); }
}
pub broadcast proof fn lemma_live_update(o: Seq<Stage_OutputDown>, i: int, x: Stage_OutputDown, k: u16)
  requires 0 <= i < o.len()
  ensures x.key == k && !x.temporarily_released ==> #[trigger] live(o.update(i, x), k),
    o[i].key != k && live(o, k) ==> live(o.update(i, x), k),
{
  reveal(live);
  let n = o.update(i, x);
  if x.key == k && !x.temporarily_released { assert(n[i] == x); }
  if o[i].key != k && live(o, k) {
    let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released;
    assert(n[j] == o[j]);
  }
}
pub broadcast proof fn lemma_live_remove(o: Seq<Stage_OutputDown>, i: int, k: u16)
  requires 0 <= i < o.len()
  ensures o[i].key != k && live(o, k) ==> #[trigger] live(o.remove(i), k)
{
  reveal(live);
  let n = o.remove(i);
  if o[i].key != k && live(o, k) {
    let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released;
    if j < i { assert(n[j] == o[j]); } else { assert(n[j - 1] == o[j]); }
  }
}
// every key is recorded at most once
#[verifier::opaque]
pub open spec fn once(o: Seq<Stage_OutputDown>) -> bool {
  forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).key != (#[trigger] o[j]).key
}
pub broadcast proof fn lemma_once_push(o: Seq<Stage_OutputDown>, x: Stage_OutputDown)
  requires once(o), forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).key != x.key
  ensures #[trigger] once(o.push(x))
{
  reveal(once);
}
pub broadcast proof fn lemma_once_update(o: Seq<Stage_OutputDown>, i: int, x: Stage_OutputDown)
  requires once(o), 0 <= i < o.len(), o[i].key == x.key
  ensures #[trigger] once(o.update(i, x))
{
  reveal(once);
  let n = o.update(i, x);
  assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).key != (#[trigger] n[b]).key by {
    assert(n[a].key == o[a].key && n[b].key == o[b].key);
  }
}
pub broadcast proof fn lemma_once_remove(o: Seq<Stage_OutputDown>, i: int)
  requires once(o), 0 <= i < o.len()
  ensures #[trigger] once(o.remove(i))
{
  reveal(once);
  let n = o.remove(i);
  assert forall|a: int, b: int| 0 <= a < b < n.len() implies (#[trigger] n[a]).key != (#[trigger] n[b]).key by {
    let aa = if a < i { a } else { a + 1 };
    let bb = if b < i { b } else { b + 1 };
    assert(n[a] == o[aa] && n[b] == o[bb]);
  }
}
pub broadcast proof fn lemma_live_once(o: Seq<Stage_OutputDown>, i: int, k: u16)
  requires once(o), 0 <= i < o.len(), o[i].key == k, #[trigger] live(o, k)
  ensures !(#[trigger] o[i]).temporarily_released
{
  reveal(live);
  reveal(once);
  let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released;
  assert(i < j ==> o[i].key != o[j].key);
  assert(j < i ==> o[j].key != o[i].key);
}
// an Up event of a recorded key cannot revoke the release of a key which is temporarily released
pub open spec fn calm(x: Stage_OutputDown) -> bool {
  x.temporarily_released ==> x.suppressed || !x.pressed_twice
}
#[verifier::opaque]
pub open spec fn settled(o: Seq<Stage_OutputDown>, k: u16) -> bool {
  forall|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k ==> calm(o[j])
}
pub broadcast proof fn lemma_settled_at(o: Seq<Stage_OutputDown>, j: int, k: u16)
  requires 0 <= j < o.len(), o[j].key == k, #[trigger] settled(o, k)
  ensures calm(#[trigger] o[j])
{
  reveal(settled);
}
pub broadcast proof fn lemma_settled_push(o: Seq<Stage_OutputDown>, x: Stage_OutputDown, k: u16)
  requires calm(x), settled(o, k) || (x.key == k && forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).key != k)
  ensures #[trigger] settled(o.push(x), k)
{
  reveal(settled);
}
pub broadcast proof fn lemma_settled_update(o: Seq<Stage_OutputDown>, i: int, x: Stage_OutputDown, k: u16)
  requires 0 <= i < o.len(), o[i].key == x.key, x.key == k ==> calm(x), settled(o, k) || (x.key == k && once(o))
  ensures #[trigger] settled(o.update(i, x), k)
{
  reveal(settled);
  reveal(once);
  let n = o.update(i, x);
  assert forall|j: int| 0 <= j < n.len() && (#[trigger] n[j]).key == k implies calm(n[j]) by {
    assert(j != i ==> n[j] == o[j]);
    assert(once(o) && i < j ==> o[i].key != o[j].key);
    assert(once(o) && j < i ==> o[j].key != o[i].key);
  }
}
pub broadcast proof fn lemma_settled_remove(o: Seq<Stage_OutputDown>, i: int, k: u16)
  requires 0 <= i < o.len(), settled(o, k)
  ensures #[trigger] settled(o.remove(i), k)
{
  reveal(settled);
  let n = o.remove(i);
  assert forall|j: int| 0 <= j < n.len() && (#[trigger] n[j]).key == k implies calm(n[j]) by {
    assert(n[j] == o[if j < i { j } else { j + 1 }]);
  }
}
// ---- splitting the record (std::stable_partition and erase) ----
pub broadcast proof fn lemma_erase_tail<T>(a: Seq<T>, b: Seq<T>, i: int, j: int)
  requires i == a.len(), j == a.len() + b.len()
  ensures #[trigger] seq_erase(a.add(b), i, j) == a
{
  assert(seq_erase(a.add(b), i, j) =~= a);
}
pub broadcast proof fn lemma_live_part(o: Seq<Stage_OutputDown>, p: spec_fn(Stage_OutputDown) -> bool, q: spec_fn(Stage_OutputDown) -> bool, k: u16)
  requires live(o, k), forall|x: Stage_OutputDown| #[trigger] p(x) || q(x)
  ensures #[trigger] live(seq_filter(o, p).add(seq_filter(o, q)), k)
{
  reveal(live);
  let a = seq_filter(o, p);
  let b = seq_filter(o, q);
  let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k && !o[j].temporarily_released;
  lemma_seq_filter(o, p);
  lemma_seq_filter(o, q);
  if p(o[j]) {
    let i = choose|i: int| 0 <= i < a.len() && a[i] == o[j];
    assert(a.add(b)[i] == o[j]);
  } else {
    assert(q(o[j]));
    let i = choose|i: int| 0 <= i < b.len() && b[i] == o[j];
    assert(a.add(b)[a.len() + i] == o[j]);
  }
}
pub broadcast proof fn lemma_live_cut(o: Seq<Stage_OutputDown>, r: int, m: int, k: u16)
  requires 0 <= r < o.len(), m == r + 1, #[trigger] live(o.subrange(0, m), k)
  ensures #[trigger] live(o.subrange(0, r), k) || (o[r].key == k && !o[r].temporarily_released)
{
  reveal(live);
  let a = o.subrange(0, m);
  let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).key == k && !a[j].temporarily_released;
  if j < r { assert(o.subrange(0, r)[j] == a[j]); }
}
pub broadcast proof fn lemma_live_all(o: Seq<Stage_OutputDown>, n: int, k: u16)
  requires n == o.len()
  ensures #[trigger] live(o.subrange(0, n), k) == live(o, k)
{
  assert(o.subrange(0, n) =~= o);
}
pub broadcast proof fn lemma_live_head(a: Seq<Stage_OutputDown>, b: Seq<Stage_OutputDown>, n: int, k: u16)
  requires n == a.len()
  ensures #[trigger] live(a.add(b).subrange(0, n), k) == live(a, k)
{
  assert(a.add(b).subrange(0, n) =~= a);
}
pub broadcast proof fn lemma_once_filter(o: Seq<Stage_OutputDown>, p: spec_fn(Stage_OutputDown) -> bool)
  requires once(o)
  ensures #[trigger] once(seq_filter(o, p))
  decreases o.len()
{
  reveal(once);
  reveal_with_fuel(seq_filter, 2);
  if o.len() > 0 {
    let d = o.drop_last();
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).key != (#[trigger] d[j]).key by {
      assert(d[i] == o[i] && d[j] == o[j]);
    }
    lemma_once_filter(d, p);
    lemma_seq_filter(d, p);
    let f = seq_filter(d, p);
    let n = seq_filter(o, p);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).key != (#[trigger] n[j]).key by {
      if j < f.len() {
        assert(n[i] == f[i] && n[j] == f[j]);
      } else {
        let x = choose|x: int| 0 <= x < d.len() && d[x] == f[i];
        assert(o[x] == n[i] && n[j] == o[o.len() - 1]);
      }
    }
  }
}
pub broadcast proof fn lemma_settled_filter(o: Seq<Stage_OutputDown>, p: spec_fn(Stage_OutputDown) -> bool, k: u16)
  requires settled(o, k)
  ensures #[trigger] settled(seq_filter(o, p), k)
{
  reveal(settled);
  lemma_seq_filter(o, p);
  let f = seq_filter(o, p);
  assert forall|j: int| 0 <= j < f.len() && (#[trigger] f[j]).key == k implies calm(f[j]) by {
    let x = choose|x: int| 0 <= x < o.len() && o[x] == f[j];
    assert(calm(o[x]));
  }
}
// every recorded key has a trigger which is still held
pub open spec fn triggered(s: Stage) -> bool {
  forall|j: int| 0 <= j < s.m_output_down.len() ==> allowed(s, (#[trigger] s.m_output_down[j]).trigger)
    && s.m_output_down[j].key != k_timeout()
}
// the input key is held, it is the one of the current event, or its release is still held back
pub open spec fn allowed(s: Stage, t: Trig) -> bool {
  (s.g_in)(tkey(t)) || s.g_cur == Some(tkey(t)) || tkey(t) == k_context()
    || (tkey(t) != k_timeout() && has_up(s.m_sequence, tkey(t)))
}
pub open spec fn covered(s: Stage) -> bool {
  forall|k: u16| k != k_timeout() && #[trigger] held(s.g_out, s.m_output_buffer, k) ==> live(s.m_output_down, k)
}
pub open spec fn out_ok(s: Stage) -> bool {
  covered(s) && once(s.m_output_down) && triggered(s)
}
// ---- output expressions ----
// an Up event follows a Down event of the same key, with no wait for the release of the trigger in between
pub open spec fn paired(q: Seq<KeyEvent>, i: int) -> bool {
  exists|j: int| 0 <= j < i && (#[trigger] q[j]).key == q[i].key && q[j].state == 1
    && forall|m: int| j <= m < i ==> (#[trigger] q[m]).state != 6
}
pub open spec fn well_formed(q: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).state == 0 && q[i].key != k_timeout() ==> paired(q, i)
}
pub broadcast proof fn lemma_rest_well_formed(q: Seq<KeyEvent>, i: int, n: int)
  requires well_formed(q), 0 < i <= q.len(), n == q.len(), q[i - 1].state == 6
  ensures #[trigger] well_formed(q.subrange(i, n))
{
  let r = q.subrange(i, n);
  assert forall|x: int| 0 <= x < r.len() && (#[trigger] r[x]).state == 0 && r[x].key != k_timeout() implies paired(r, x) by {
    assert(q[i + x] == r[x]);
    assert(paired(q, i + x));
    let j = choose|j: int| 0 <= j < i + x && (#[trigger] q[j]).key == q[i + x].key && q[j].state == 1
      && forall|m: int| j <= m < i + x ==> (#[trigger] q[m]).state != 6;
    assert(q[i - 1].state == 6);
    assert(j >= i);
    assert(r[j - i] == q[j]);
    assert forall|m: int| j - i <= m < x implies (#[trigger] r[m]).state != 6 by { assert(q[m + i] == r[m]); }
  }
}
// keys pressed so far are settled
#[verifier::opaque]
pub open spec fn matches_settled(s: Stage) -> bool {
  some_settled(s, s.m_any_key_matches.len() as int)
}
pub open spec fn event_settled(s: Stage, e: KeyEvent) -> bool {
  if e.key == k_any() { matches_settled(s) } else { settled(s.m_output_down, e.key) }
}
pub open spec fn pending(s: Stage, q: Seq<KeyEvent>, n: int) -> bool {
  forall|j: int| 0 <= j < n && (#[trigger] q[j]).state == 1 && q[j].key != k_timeout() ==> event_settled(s, q[j])
}
pub broadcast proof fn lemma_matches_keep(s: Stage, t: Stage)
  requires #[trigger] matches_settled(s), s.m_any_key_matches == t.m_any_key_matches,
    forall|k: u16| settled(s.m_output_down, k) ==> #[trigger] settled(t.m_output_down, k)
  ensures #[trigger] matches_settled(t)
{
  reveal(matches_settled);
}
pub broadcast proof fn lemma_match_settled(s: Stage, i: int)
  requires #[trigger] matches_settled(s), 0 <= i < s.m_any_key_matches.len(), s.m_any_key_matches[i] != k_timeout()
  ensures settled(s.m_output_down, #[trigger] s.m_any_key_matches[i])
{
  reveal(matches_settled);
}
pub open spec fn some_settled(s: Stage, n: int) -> bool {
  forall|i: int| 0 <= i < n && (#[trigger] s.m_any_key_matches[i]) != k_timeout() ==> settled(s.m_output_down, s.m_any_key_matches[i])
}
pub broadcast proof fn lemma_all_settled(s: Stage)
  requires some_settled(s, s.m_any_key_matches.len() as int)
  ensures #[trigger] matches_settled(s)
{
  reveal(matches_settled);
}
pub open spec fn waiting_ok(s: Stage) -> bool {
  forall|j: int| 0 <= j < s.m_output_on_release.len() ==> well_formed((#[trigger] s.m_output_on_release[j]).sequence)
    && s.m_output_on_release[j].trigger != k_timeout()
}
pub open spec fn no_waiting(s: Stage, k: u16) -> bool {
  forall|j: int| 0 <= j < s.m_output_on_release.len() ==> (#[trigger] s.m_output_on_release[j]).trigger != k
}
pub open spec fn presses(t: Trig) -> bool {
  trigger_event(t).state == 1 ==> tkey(t) != k_timeout()
}

// ---- the whole state ----
pub open spec fn context_ok(c: Stage_Context) -> bool {
  (forall|i: int| 0 <= i < c.outputs.len() ==> well_formed(#[trigger] c.outputs[i]))
    && (forall|i: int| 0 <= i < c.command_outputs.len() ==> well_formed((#[trigger] c.command_outputs[i]).output))
}
pub open spec fn config_ok(s: Stage) -> bool {
  forall|i: int| 0 <= i < s.m_contexts.len() ==> context_ok(#[trigger] s.m_contexts[i])
}
pub open spec fn timeout_ok(s: Stage) -> bool {
  s.m_current_timeout is Some ==> s.m_current_timeout.unwrap().trigger != k_timeout()
}
pub open spec fn rest_ok(s: Stage) -> bool {
  waiting_ok(s) && config_ok(s) && timeout_ok(s)
}
pub open spec fn sane(s: Stage) -> bool {
  out_ok(s) && rest_ok(s) && tracked(s.g_in, s.m_sequence)
}
pub open spec fn sane_before(s: Stage, k: u16) -> bool {
  out_ok(s) && rest_ok(s) && tracked(and_key(s.g_in, k), s.m_sequence)
}
pub open spec fn rests(s: Stage) -> bool {
  sane(s) && s.g_cur is None && !(s.g_in)(k_timeout()) && s.m_output_buffer.len() == 0
}
// no recorded key was triggered by the key
#[verifier::opaque]
pub open spec fn untriggered(o: Seq<Stage_OutputDown>, k: u16) -> bool {
  forall|j: int| 0 <= j < o.len() ==> tkey((#[trigger] o[j]).trigger) != k
}
pub broadcast proof fn lemma_untriggered(o: Seq<Stage_OutputDown>, k: u16)
  requires forall|j: int| 0 <= j < o.len() ==> tkey((#[trigger] o[j]).trigger) != k
  ensures #[trigger] untriggered(o, k)
{
  reveal(untriggered);
}
pub broadcast proof fn lemma_untriggered_push(o: Seq<Stage_OutputDown>, x: Stage_OutputDown, k: u16)
  requires untriggered(o, k), tkey(x.trigger) != k
  ensures #[trigger] untriggered(o.push(x), k)
{
  reveal(untriggered);
}
pub broadcast proof fn lemma_untriggered_update(o: Seq<Stage_OutputDown>, i: int, x: Stage_OutputDown, k: u16)
  requires untriggered(o, k), 0 <= i < o.len(), x.trigger == o[i].trigger
  ensures #[trigger] untriggered(o.update(i, x), k)
{
  reveal(untriggered);
  let n = o.update(i, x);
  assert forall|j: int| 0 <= j < n.len() implies tkey((#[trigger] n[j]).trigger) != k by { assert(n[j].trigger == o[j].trigger); }
}
pub broadcast proof fn lemma_untriggered_remove(o: Seq<Stage_OutputDown>, i: int, k: u16)
  requires untriggered(o, k), 0 <= i < o.len()
  ensures #[trigger] untriggered(o.remove(i), k)
{
  reveal(untriggered);
  let n = o.remove(i);
  assert forall|j: int| 0 <= j < n.len() implies tkey((#[trigger] n[j]).trigger) != k by {
    assert(n[j] == o[if j < i { j } else { j + 1 }]);
  }
}
pub broadcast proof fn lemma_untriggered_filter(o: Seq<Stage_OutputDown>, p: spec_fn(Stage_OutputDown) -> bool, k: u16)
  requires untriggered(o, k)
  ensures #[trigger] untriggered(seq_filter(o, p), k)
{
  reveal(untriggered);
  lemma_seq_filter(o, p);
  let f = seq_filter(o, p);
  assert forall|j: int| 0 <= j < f.len() implies tkey((#[trigger] f[j]).trigger) != k by {
    let x = choose|x: int| 0 <= x < o.len() && o[x] == f[j];
    assert(tkey(o[x].trigger) != k);
  }
}
pub broadcast proof fn lemma_untriggered_at(o: Seq<Stage_OutputDown>, j: int, k: u16)
  requires #[trigger] untriggered(o, k), 0 <= j < o.len()
  ensures tkey((#[trigger] o[j]).trigger) != k
{
  reveal(untriggered);
}

// ---- steps of the engine which do not touch the output ----
#[verifier::opaque]
pub open spec fn out_fine(o: Seq<Stage_OutputDown>, b: Seq<KeyEvent>, g: Keys, h: Keys, c: Option<u16>, q: Seq<KeyEvent>) -> bool {
  (forall|k: u16| k != k_timeout() && #[trigger] held(g, b, k) ==> live(o, k)) && once(o)
  && (forall|j: int| 0 <= j < o.len() ==> fine_trigger(h, c, q, tkey((#[trigger] o[j]).trigger)) && o[j].key != k_timeout())
}
pub open spec fn fine_trigger(h: Keys, c: Option<u16>, q: Seq<KeyEvent>, t: u16) -> bool {
  h(t) || c == Some(t) || t == k_context() || (t != k_timeout() && has_up(q, t))
}
pub broadcast proof fn lemma_out_fine(s: Stage)
  ensures #[trigger] out_ok(s) == out_fine(s.m_output_down, s.m_output_buffer, s.g_out, s.g_in, s.g_cur, s.m_sequence)
{
  reveal(out_fine);
}
pub broadcast proof fn lemma_unsuppress(o: Seq<Stage_OutputDown>, j: int, x: Stage_OutputDown, b: Seq<KeyEvent>, g: Keys, h: Keys, c: Option<u16>, q: Seq<KeyEvent>)
  requires out_fine(o, b, g, h, c, q), 0 <= j < o.len(), x == (Stage_OutputDown { suppressed: false, ..o[j] })
  ensures #[trigger] out_fine(o.update(j, x), b, g, h, c, q)
{
  reveal(out_fine);
  broadcast use lemma_live_update, lemma_once_update;
  let t = o.update(j, x);
  assert forall|k: u16| k != k_timeout() && #[trigger] held(g, b, k) implies live(t, k) by {
    assert(live(o, k));
    reveal(live);
    let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).key == k && !o[i].temporarily_released;
    assert(t[i].key == k && !t[i].temporarily_released);
  }
  assert forall|i: int| 0 <= i < t.len() implies fine_trigger(h, c, q, tkey((#[trigger] t[i]).trigger)) && t[i].key != k_timeout() by {
    assert(t[i].trigger == o[i].trigger && t[i].key == o[i].key);
  }
}
pub broadcast proof fn lemma_out_push(o: Seq<Stage_OutputDown>, b: Seq<KeyEvent>, g: Keys, h: Keys, c: Option<u16>, q: Seq<KeyEvent>, e: KeyEvent)
  requires out_fine(o, b, g, h, c, q)
  ensures #[trigger] out_fine(o, b, g, h, c, q.push(e))
{
  reveal(out_fine);
  broadcast use lemma_up_push;
}
pub broadcast proof fn lemma_out_update(o: Seq<Stage_OutputDown>, b: Seq<KeyEvent>, g: Keys, h: Keys, c: Option<u16>, q: Seq<KeyEvent>, i: int, e: KeyEvent)
  requires out_fine(o, b, g, h, c, q), 0 <= i < q.len(), q[i].state != 0 || q[i].key == k_timeout(), e.key == q[i].key
  ensures #[trigger] out_fine(o, b, g, h, c, q.update(i, e))
{
  reveal(out_fine);
  broadcast use lemma_up_update;
}
pub broadcast proof fn lemma_out_remove(o: Seq<Stage_OutputDown>, b: Seq<KeyEvent>, g: Keys, h: Keys, c: Option<u16>, q: Seq<KeyEvent>, i: int)
  requires out_fine(o, b, g, h, c, q), 0 <= i < q.len(), q[i].state != 0 || q[i].key == k_timeout()
  ensures #[trigger] out_fine(o, b, g, h, c, q.remove(i))
{
  reveal(out_fine);
  broadcast use lemma_up_remove;
}
pub broadcast proof fn lemma_permutation(a: Seq<Stage_CommandOutput>, b: Seq<Stage_CommandOutput>)
  requires #[trigger] a.to_multiset() =~= #[trigger] b.to_multiset(),
    forall|i: int| 0 <= i < b.len() ==> well_formed((#[trigger] b[i]).output)
  ensures forall|i: int| 0 <= i < a.len() ==> well_formed((#[trigger] a[i]).output)
{
  assert forall|i: int| 0 <= i < a.len() implies well_formed((#[trigger] a[i]).output) by {
    a.to_multiset_ensures();
    b.to_multiset_ensures();
    assert(a.contains(a[i]));
    assert(b.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
    assert(well_formed(b[j].output));
  }
}
pub broadcast proof fn lemma_once_empty(o: Seq<Stage_OutputDown>)
  requires o.len() == 0
  ensures #[trigger] once(o)
{
  reveal(once);
}
// a key which is down in the output is recorded with a trigger which is held, of which the release is held back,
// or which is an active context
#[verifier::opaque]
pub open spec fn explained(s: Stage, k: u16) -> bool {
  exists|j: int| 0 <= j < s.m_output_down.len() && (#[trigger] s.m_output_down[j]).key == k && (
    (s.g_in)(tkey(s.m_output_down[j].trigger)) || has_up(s.m_sequence, tkey(s.m_output_down[j].trigger))
    || tkey(s.m_output_down[j].trigger) == k_context())
}
pub broadcast proof fn lemma_explained(s: Stage, k: u16)
  requires out_ok(s), s.g_cur is None, live(s.m_output_down, k)
  ensures #[trigger] explained(s, k)
{
  reveal(explained);
  reveal(live);
}
pub broadcast proof fn lemma_live_has(o: Seq<Stage_OutputDown>, k: u16)
  requires #[trigger] live(o, k)
  ensures exists|j: int| 0 <= j < o.len() && (#[trigger] o[j]).key == k
{
  reveal(live);
}
pub broadcast proof fn lemma_rests_live(s: Stage, k: u16)
  requires #[trigger] rests(s), #[trigger] (s.g_out)(k), k != k_timeout()
  ensures live(s.m_output_down, k)
{
  lemma_held_empty(s.g_out, k);
  assert(s.m_output_buffer =~= Seq::<KeyEvent>::empty());
  assert(held(s.g_out, s.m_output_buffer, k));
}
pub broadcast proof fn lemma_contains_push(q: Seq<u16>, x: u16, k: u16)
  ensures #[trigger] q.push(x).contains(k) == (q.contains(k) || x == k)
{
  let n = q.push(x);
  if q.contains(k) { let j = choose|j: int| 0 <= j < q.len() && q[j] == k; assert(n[j] == k); }
  if x == k { assert(n[q.len() as int] == k); }
}
pub open spec fn is_device(k: u16) -> bool { 0 < k < 0xF000 }
pub broadcast group input_lemmas {
  lemma_out_fine, lemma_unsuppress, lemma_out_push, lemma_out_update, lemma_out_remove, lemma_up_at, lemma_up_any,
  lemma_tracked_at, lemma_tracked_more, lemma_tracked_push, lemma_tracked_update, lemma_tracked_remove, lemma_tracked_timeout,
  lemma_untriggered_update,
}
pub broadcast group stuck_lemmas {
  lemma_held_push, lemma_held_pop, lemma_held_remove, lemma_held_empty, lemma_live_at, lemma_live_push, lemma_live_update,
  lemma_live_remove, lemma_live_once, lemma_once_push, lemma_once_update, lemma_once_remove, lemma_settled_at, lemma_settled_push,
  lemma_settled_update, lemma_settled_remove, lemma_erase_tail, lemma_live_part, lemma_live_cut, lemma_live_all,
  lemma_live_head, lemma_once_filter, lemma_settled_filter, lemma_rest_well_formed, lemma_matches_keep, lemma_match_settled,
  lemma_all_settled, lemma_up_at, lemma_up_any, lemma_up_push, lemma_up_update, lemma_up_remove, lemma_tracked_at, lemma_tracked_more,
  lemma_tracked_push, lemma_tracked_update, lemma_tracked_remove, lemma_passed_zero, lemma_passed_at, lemma_passed_next,
  lemma_passed_update, lemma_passed_remove, lemma_up_rest, lemma_tracked_timeout, lemma_untriggered,
  lemma_untriggered_at, lemma_untriggered_push, lemma_untriggered_update, lemma_untriggered_remove, lemma_untriggered_filter, lemma_explained,
}
