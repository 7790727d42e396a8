pub type Trig = Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16;
pub type Keys = spec_fn(u16) -> bool;

pub open spec fn k_any() -> u16 { 0xF000 }
pub open spec fn k_timeout() -> u16 { 0xF001 }
pub open spec fn k_context() -> u16 { 0xF002 }
pub open spec fn k_virtual(k: u16) -> bool { 0xF100 <= k <= 0xF1FF }

// ---- the sequence of input events ----
pub open spec fn is_down(e: KeyEvent) -> bool { e.state == 1 || e.state == 7 }
#[verifier::opaque]
pub open spec fn up_from(q: Seq<KeyEvent>, i: int, k: u16) -> bool {
  exists|j: int| i <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0
}
pub open spec fn has_up(q: Seq<KeyEvent>, k: u16) -> bool { up_from(q, 0, k) }
pub broadcast proof fn lemma_up_at(q: Seq<KeyEvent>, i: int, j: int, k: u16)
  requires i <= j < q.len(), q[j].key == k, q[j].state == 0
  ensures #[trigger] up_from(q, i, k), (#[trigger] q[j]).key == k
{
  reveal(up_from);
}
pub broadcast proof fn lemma_up_any(q: Seq<KeyEvent>, i: int, k: u16)
  requires #[trigger] up_from(q, i, k), 0 <= i
  ensures has_up(q, k)
{
  reveal(up_from);
}
pub broadcast proof fn lemma_up_push(q: Seq<KeyEvent>, e: KeyEvent, i: int, k: u16)
  requires 0 <= i <= q.len()
  ensures #[trigger] up_from(q.push(e), i, k) == (up_from(q, i, k) || (e.key == k && e.state == 0))
{
  reveal(up_from);
  let n = q.push(e);
  if up_from(q, i, k) {
    let j = choose|j: int| i <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0;
    assert(n[j] == q[j]);
  }
  if e.key == k && e.state == 0 { assert(n[q.len() as int] == e); }
}
pub broadcast proof fn lemma_up_update(q: Seq<KeyEvent>, x: int, e: KeyEvent, i: int, k: u16)
  requires 0 <= x < q.len(), q[x].key != k || q[x].state != 0, e.key == q[x].key
  ensures up_from(q, i, k) ==> #[trigger] up_from(q.update(x, e), i, k)
{
  reveal(up_from);
  let n = q.update(x, e);
  if up_from(q, i, k) {
    let j = choose|j: int| i <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0;
    assert(n[j] == q[j]);
  }
}
pub broadcast proof fn lemma_up_remove(q: Seq<KeyEvent>, x: int, k: u16)
  requires 0 <= x < q.len(), q[x].key != k || q[x].state != 0
  ensures has_up(q, k) ==> #[trigger] up_from(q.remove(x), 0, k)
{
  reveal(up_from);
  let n = q.remove(x);
  if has_up(q, k) {
    let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0;
    if j < x { assert(n[j] == q[j]); } else { assert(n[j - 1] == q[j]); }
  }
}
// every pressed key in the sequence is held or its release follows
#[verifier::opaque]
pub open spec fn tracked(g: Keys, q: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < q.len() ==> (
    if (#[trigger] q[i]).key == k_timeout() { q[i].state == 0 || q[i].state == 8 }
    else { q[i].state == 0 || (is_down(q[i]) && (g(q[i].key) || up_from(q, i, q[i].key))) })
}
pub open spec fn and_key(g: Keys, k: u16) -> Keys { |x: u16| g(x) || x == k }
pub open spec fn step_keys(g: Keys, e: KeyEvent) -> Keys {
  |x: u16| if x == e.key && e.key != k_timeout() { e.state == 1 } else { g(x) }
}
pub broadcast proof fn lemma_tracked_at(g: Keys, q: Seq<KeyEvent>, i: int)
  requires #[trigger] tracked(g, q), 0 <= i < q.len()
  ensures (#[trigger] q[i]).key == k_timeout() ==> q[i].state == 0 || q[i].state == 8,
    q[i].key != k_timeout() ==> q[i].state == 0 || is_down(q[i]),
    is_down(q[i]) ==> g(q[i].key) || up_from(q, i, q[i].key),
{
  reveal(tracked);
}
pub broadcast proof fn lemma_tracked_more(g: Keys, h: Keys, q: Seq<KeyEvent>)
  requires #[trigger] tracked(g, q), forall|k: u16| #[trigger] g(k) ==> h(k)
  ensures #[trigger] tracked(h, q)
{
  reveal(tracked);
}
pub broadcast proof fn lemma_tracked_timeout(g: Keys, q: Seq<KeyEvent>)
  requires #[trigger] tracked(and_key(g, k_timeout()), q)
  ensures tracked(g, q)
{
  reveal(tracked);
}
pub broadcast proof fn lemma_tracked_push(g: Keys, q: Seq<KeyEvent>, e: KeyEvent)
  requires tracked(and_key(g, e.key), q), e.state == 0 || (e.state == 1 && e.key != k_timeout() && g(e.key))
  ensures #[trigger] tracked(g, q.push(e))
{
  reveal(tracked);
  let n = q.push(e);
  let h = and_key(g, e.key);
  assert forall|i: int| 0 <= i < n.len() implies (
    if (#[trigger] n[i]).key == k_timeout() { n[i].state == 0 || n[i].state == 8 }
    else { n[i].state == 0 || (is_down(n[i]) && (g(n[i].key) || up_from(n, i, n[i].key))) }) by
  {
    if i < q.len() {
      assert(n[i] == q[i]);
      lemma_tracked_at(h, q, i);
      lemma_up_push(q, e, i, q[i].key);
    }
  }
}
pub broadcast proof fn lemma_tracked_update(g: Keys, q: Seq<KeyEvent>, x: int, e: KeyEvent)
  requires tracked(g, q), 0 <= x < q.len(), e.key == q[x].key,
    e.key == k_timeout() ==> e.state == 8,
    e.key != k_timeout() ==> is_down(q[x]) && is_down(e)
  ensures #[trigger] tracked(g, q.update(x, e))
{
  reveal(tracked);
  let n = q.update(x, e);
  assert forall|i: int| 0 <= i < n.len() implies (
    if (#[trigger] n[i]).key == k_timeout() { n[i].state == 0 || n[i].state == 8 }
    else { n[i].state == 0 || (is_down(n[i]) && (g(n[i].key) || up_from(n, i, n[i].key))) }) by
  {
    lemma_tracked_at(g, q, i);
    assert(n[i].key == q[i].key);
    if n[i].key != k_timeout() { lemma_up_update(q, x, e, i, q[i].key); }
  }
}
// removing a Down, or an Up which no Down precedes
pub broadcast proof fn lemma_tracked_remove(g: Keys, q: Seq<KeyEvent>, x: int)
  requires tracked(g, q), 0 <= x < q.len(),
    q[x].state != 0 || q[x].key == k_timeout() || forall|j: int| 0 <= j < x && is_down(#[trigger] q[j]) ==> q[j].key != q[x].key
  ensures #[trigger] tracked(g, q.remove(x))
{
  reveal(tracked);
  reveal(up_from);
  let n = q.remove(x);
  assert forall|i: int| 0 <= i < n.len() implies (
    if (#[trigger] n[i]).key == k_timeout() { n[i].state == 0 || n[i].state == 8 }
    else { n[i].state == 0 || (is_down(n[i]) && (g(n[i].key) || up_from(n, i, n[i].key))) }) by
  {
    let y = if i < x { i } else { i + 1 };
    assert(n[i] == q[y]);
    lemma_tracked_at(g, q, y);
    let k = q[y].key;
    if is_down(q[y]) && !g(k) {
      let j = choose|j: int| y <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0;
      assert(j != x);
      assert(n[if j < x { j } else { j - 1 }] == q[j]);
    }
  }
}
// events which were passed over: no release follows
#[verifier::opaque]
pub open spec fn passed(q: Seq<KeyEvent>, n: int) -> bool {
  forall|j: int, m: int| 0 <= j < n && j <= m < q.len() && (#[trigger] q[m]).state == 0 && q[m].key != k_timeout()
    ==> (#[trigger] q[j]).key != q[m].key
}
pub broadcast proof fn lemma_passed_zero(q: Seq<KeyEvent>, n: int)
  requires n <= 0
  ensures #[trigger] passed(q, n)
{
  reveal(passed);
}
pub broadcast proof fn lemma_passed_at(q: Seq<KeyEvent>, n: int, m: int)
  requires #[trigger] passed(q, n), 0 <= n <= m < q.len(), q[m].state == 0, q[m].key != k_timeout()
  ensures (#[trigger] q[m]).state == 0, forall|j: int| 0 <= j < n ==> (#[trigger] q[j]).key != q[m].key
{
  reveal(passed);
}
pub broadcast proof fn lemma_passed_next(q: Seq<KeyEvent>, m: int)
  requires passed(q, m - 1), 0 < m <= q.len(),
    q[m - 1].key == k_timeout() || forall|j: int| m - 1 <= j < q.len() && (#[trigger] q[j]).state == 0 ==> q[j].key != q[m - 1].key
  ensures #[trigger] passed(q, m)
{
  reveal(passed);
}
pub broadcast proof fn lemma_passed_update(q: Seq<KeyEvent>, n: int, x: int, e: KeyEvent)
  requires passed(q, n), 0 <= x < q.len(), e.key == q[x].key, e.state != 0
  ensures #[trigger] passed(q.update(x, e), n)
{
  reveal(passed);
  let r = q.update(x, e);
  assert forall|j: int, m: int| 0 <= j < n && j <= m < r.len() && (#[trigger] r[m]).state == 0 && r[m].key != k_timeout()
    implies (#[trigger] r[j]).key != r[m].key by { assert(q[m] == r[m] && q[j].key == r[j].key); }
}
pub broadcast proof fn lemma_passed_remove(q: Seq<KeyEvent>, n: int, x: int)
  requires passed(q, n), 0 <= n <= x < q.len()
  ensures #[trigger] passed(q.remove(x), n)
{
  reveal(passed);
  let r = q.remove(x);
  assert forall|j: int, m: int| 0 <= j < n && j <= m < r.len() && (#[trigger] r[m]).state == 0 && r[m].key != k_timeout()
    implies (#[trigger] r[j]).key != r[m].key by {
      let mm = if m < x { m } else { m + 1 };
      assert(q[mm] == r[m]);
      assert(j < r.len());
      assert(q[j] == r[j]);
    }
}
// when an Up is removed then the key is still held or released when it is followed by another event of the key
pub broadcast proof fn lemma_up_rest(g: Keys, q: Seq<KeyEvent>, x: int, m: int, k: u16)
  requires tracked(g, q), 0 <= x < m < q.len(), k != k_timeout(), q[x].key == k, q[m].key == k
  ensures #![trigger tracked(g, q), up_from(q.remove(x), 0, k), q[m]] g(k) || up_from(q.remove(x), 0, k)
{
  reveal(up_from);
  lemma_tracked_at(g, q, m);
  let n = q.remove(x);
  assert(n[m - 1] == q[m]);
  if is_down(q[m]) && !g(k) {
    let j = choose|j: int| m <= j < q.len() && (#[trigger] q[j]).key == k && q[j].state == 0;
    assert(n[j - 1] == q[j]);
  }
}
pub open spec fn no_down_timeout(q: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < q.len() && is_down(#[trigger] q[i]) ==> q[i].key != k_timeout()
}

pub broadcast proof fn lemma_tracked_empty(g: Keys, q: Seq<KeyEvent>)
  requires q.len() == 0
  ensures #[trigger] tracked(g, q)
{
  reveal(tracked);
}
pub open spec fn no_keys() -> Keys { |k: u16| false }
pub broadcast group sequence_lemmas {
  lemma_up_at, lemma_up_any, lemma_up_push, lemma_up_update, lemma_up_remove, lemma_tracked_at, lemma_tracked_more,
  lemma_tracked_push, lemma_tracked_update, lemma_tracked_remove, lemma_passed_zero, lemma_passed_at, lemma_passed_next,
  lemma_passed_update, lemma_passed_remove, lemma_tracked_timeout, lemma_tracked_empty,
}
