// ---- active contexts ----
pub open spec fn has_key(q: Seq<KeyEvent>, k: u16) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).key == k }

#[verifier::opaque]
pub open spec fn mod_ok(q: Seq<KeyEvent>, m: Seq<KeyEvent>, n: int) -> bool {
  forall|i: int| 0 <= i < n ==> has_key(q, (#[trigger] m[i]).key) == (m[i].state != 2)
}
pub open spec fn ctx_on(c: Stage_Context, q: Seq<KeyEvent>) -> bool {
  (mod_ok(q, c.modifier_filter, c.modifier_filter.len() as int) != c.invert_modifier_filter)
  && ((c.device_filter.string_.len() == 0 && c.device_id_filter.string_.len() == 0) || c.matching_device_bits != 0)
}
// the context which has the mappings
pub open spec fn fall(cs: Seq<Stage_Context>, i: int) -> int decreases cs.len() - i {
  if 0 <= i < cs.len() && cs[i].fallthrough { fall(cs, i + 1) } else { i }
}
pub open spec fn active(cs: Seq<Stage_Context>, client: Seq<i32>, q: Seq<KeyEvent>, n: int) -> Seq<i32> decreases n {
  if n <= 0 { Seq::empty() }
  else {
    let r = active(cs, client, q, n - 1);
    let f = fall(cs, client[n - 1] as int) as i32;
    if ctx_on(cs[client[n - 1] as int], q) && (r.len() == 0 || r.last() != f) { r.push(f) } else { r }
  }
}
// every context given by the client is in order
pub open spec fn client_ok(cs: Seq<Stage_Context>, client: Seq<i32>) -> bool {
  &&& forall|i: int| 0 <= i < client.len() ==> 0 <= #[trigger] client[i] < cs.len()
  &&& forall|i: int, j: int| 0 <= i < j < client.len() ==> #[trigger] client[i] <= #[trigger] client[j]
}
// a context without own mappings is followed by the one it shares them with
pub open spec fn config_ok(cs: Seq<Stage_Context>) -> bool {
  &&& cs.len() < 0x7fffffff
  &&& cs.len() > 0 ==> !cs.last().fallthrough
  &&& forall|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs[i].modifier_filter.len() ==> (#[trigger] cs[i].modifier_filter[j]).key != 0xF001
}
#[verifier::opaque]
pub open spec fn increasing(s: Seq<i32>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j]
  &&& forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < 0x7fffffff
}
pub open spec fn up_to_date(s: Stage) -> bool {
  s.m_active_contexts == active(s.m_contexts, s.m_active_client_contexts, s.m_sequence, s.m_active_client_contexts.len() as int)
}
// only timeouts are kept as released
#[verifier::opaque]
pub open spec fn ups_ok(q: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).state == 8 ==> q[i].key == 0xF001
}
pub open spec fn ctx_ok(s: Stage) -> bool {
  config_ok(s.m_contexts) && client_ok(s.m_contexts, s.m_active_client_contexts)
  && increasing(s.m_active_contexts) && ups_ok(s.m_sequence)
}

// ---- toggled contexts ----
pub open spec fn has_index(s: Seq<i32>, x: i32) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == x }
// the first n of a which are not in b
pub open spec fn only_in(a: Seq<i32>, b: Seq<i32>, n: int, on: bool) -> Seq<(i32, bool)> decreases n {
  if n <= 0 { Seq::empty() }
  else if has_index(b, a[n - 1]) { only_in(a, b, n - 1, on) }
  else { only_in(a, b, n - 1, on).push((a[n - 1], on)) }
}
pub open spec fn toggled(a: Seq<i32>, b: Seq<i32>) -> Seq<(i32, bool)> {
  only_in(a, b, a.len() as int, false).add(only_in(b, a, b.len() as int, true))
}
// everything before i in a and before j in b was compared
#[verifier::opaque]
pub open spec fn compared(a: Seq<i32>, b: Seq<i32>, i: int, j: int) -> bool {
  &&& 0 <= i <= a.len() && 0 <= j <= b.len()
  &&& forall|k: int, l: int| 0 <= k < i && j <= l < b.len() ==> #[trigger] a[k] < #[trigger] b[l]
  &&& forall|k: int, l: int| i <= k < a.len() && 0 <= l < j ==> #[trigger] b[l] < #[trigger] a[k]
}
// after the first n passes
pub open spec fn passes(a: Seq<i32>, b: Seq<i32>, n: int) -> Seq<(i32, bool)> {
  if n <= 0 { Seq::empty() } else if n == 1 { only_in(a, b, a.len() as int, false) } else { toggled(a, b) }
}

pub broadcast proof fn lemma_fall(cs: Seq<Stage_Context>, i: int)
  requires 0 <= i < cs.len(), !cs.last().fallthrough
  ensures i <= #[trigger] fall(cs, i) < cs.len(), !cs[fall(cs, i)].fallthrough
  decreases cs.len() - i
{
  if cs[i].fallthrough { lemma_fall(cs, i + 1); }
}
pub proof fn lemma_fall_same(cs: Seq<Stage_Context>, i: int, j: int)
  requires 0 <= i <= j < cs.len(), !cs.last().fallthrough
  ensures fall(cs, i) <= fall(cs, j)
  decreases j - i
{
  if i < j && cs[i].fallthrough { lemma_fall_same(cs, i + 1, j); }
  lemma_fall(cs, j);
}
// ascending, and not behind the one of the last given context
pub proof fn lemma_active(cs: Seq<Stage_Context>, client: Seq<i32>, q: Seq<KeyEvent>, n: int)
  requires config_ok(cs), client_ok(cs, client), 0 <= n <= client.len()
  ensures increasing(active(cs, client, q, n)),
    forall|k: int| 0 <= k < active(cs, client, q, n).len() ==> 0 <= #[trigger] active(cs, client, q, n)[k] && n > 0 && active(cs, client, q, n)[k] <= fall(cs, client[n - 1] as int),
  decreases n
{
  reveal(increasing);
  if n > 0 {
    lemma_active(cs, client, q, n - 1);
    lemma_fall(cs, client[n - 1] as int);
    let r = active(cs, client, q, n - 1);
    let f = fall(cs, client[n - 1] as int) as i32;
    if n > 1 {
      assert(client[n - 2] <= client[n - 1]);
      lemma_fall_same(cs, client[n - 2] as int, client[n - 1] as int);
    }
    if r.len() > 0 { assert(r.last() <= f); }
  }
}
pub broadcast proof fn lemma_active_b(cs: Seq<Stage_Context>, client: Seq<i32>, q: Seq<KeyEvent>, n: int)
  requires config_ok(cs), client_ok(cs, client), 0 <= n <= client.len()
  ensures increasing(#[trigger] active(cs, client, q, n)),
    forall|k: int| 0 <= k < active(cs, client, q, n).len() ==> 0 <= #[trigger] active(cs, client, q, n)[k] < cs.len()
{
  lemma_active(cs, client, q, n);
  if n > 0 { lemma_fall(cs, client[n - 1] as int); }
}
// timeouts are no modifiers
pub proof fn lemma_ctx_on_remove(cs: Seq<Stage_Context>, c: int, q: Seq<KeyEvent>, i: int)
  requires config_ok(cs), 0 <= c < cs.len(), 0 <= i < q.len(), q[i].key == 0xF001
  ensures ctx_on(cs[c], q.remove(i)) == ctx_on(cs[c], q)
{
  reveal(mod_ok);
  let m = cs[c].modifier_filter;
  let r = q.remove(i);
  assert forall|j: int| 0 <= j < m.len() implies has_key(r, (#[trigger] m[j]).key) == has_key(q, m[j].key) by {
    let k = cs[c].modifier_filter[j].key;
    assert(k != 0xF001);
    if has_key(q, k) {
      let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).key == k;
      assert(r[if x < i { x } else { x - 1 }].key == k);
    }
    if has_key(r, k) {
      let x = choose|x: int| 0 <= x < r.len() && (#[trigger] r[x]).key == k;
      assert(q[if x < i { x } else { x + 1 }].key == k);
    }
  }
}
pub broadcast proof fn lemma_active_remove(cs: Seq<Stage_Context>, client: Seq<i32>, q: Seq<KeyEvent>, i: int, n: int)
  requires config_ok(cs), client_ok(cs, client), 0 <= i < q.len(), q[i].key == 0xF001, 0 <= n <= client.len()
  ensures #[trigger] active(cs, client, q.remove(i), n) == active(cs, client, q, n)
  decreases n
{
  if n > 0 {
    lemma_active_remove(cs, client, q, i, n - 1);
    lemma_ctx_on_remove(cs, client[n - 1] as int, q, i);
  }
}
pub broadcast proof fn lemma_ups_remove(q: Seq<KeyEvent>, i: int)
  requires ups_ok(q), 0 <= i < q.len()
  ensures #[trigger] ups_ok(q.remove(i))
{ reveal(ups_ok); }
pub broadcast proof fn lemma_ups_push(q: Seq<KeyEvent>, e: KeyEvent)
  requires ups_ok(q), e.state == 8 ==> e.key == 0xF001
  ensures #[trigger] ups_ok(q.push(e))
{ reveal(ups_ok); }
pub broadcast proof fn lemma_ups_update(q: Seq<KeyEvent>, i: int, e: KeyEvent)
  requires ups_ok(q), e.state == 8 ==> e.key == 0xF001
  ensures #[trigger] ups_ok(q.update(i, e))
{ reveal(ups_ok); }
pub broadcast proof fn lemma_ups(q: Seq<KeyEvent>, i: int)
  requires #[trigger] ups_ok(q), 0 <= i < q.len()
  ensures (#[trigger] q[i]).state == 8 ==> q[i].key == 0xF001
{ reveal(ups_ok); }
pub broadcast proof fn lemma_ups_empty(q: Seq<KeyEvent>)
  requires q.len() == 0
  ensures #[trigger] ups_ok(q)
{ reveal(ups_ok); }
pub broadcast proof fn lemma_increasing_empty(s: Seq<i32>)
  requires s.len() == 0
  ensures #[trigger] increasing(s)
{ reveal(increasing); }
pub broadcast group context_lemmas {
  lemma_fall, lemma_active_b, lemma_active_remove, lemma_ups_remove, lemma_ups_push, lemma_ups_update, lemma_ups, lemma_ups_empty,
  lemma_increasing_empty,
}
pub broadcast group input_lemmas {
  lemma_active_remove, lemma_ups_remove, lemma_ups_push, lemma_ups_update, lemma_ups,
}
