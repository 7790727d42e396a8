// what the queued output events stand for
pub open spec fn q_wheel(k: u16) -> bool { 0x150 <= k <= 0x153 }
pub open spec fn q_virtual(k: u16) -> bool { 0xF100 <= k <= 0xF1FF }
pub open spec fn q_action(k: u16) -> bool { 0xF200 <= k <= 0xF2FF }
pub open spec fn q_timeout(k: u16) -> bool { k == 0xF001 }
pub open spec fn q_is_key(e: KeyEvent) -> bool {
  !(q_wheel(e.key) && e.state == 1) && !q_action(e.key) && !q_virtual(e.key) && !q_timeout(e.key)
}
// key events for the virtual device among the first n events, in order
pub open spec fn q_keys(s: Seq<KeyEvent>, n: int) -> Seq<KeyEvent> decreases n {
  if n <= 0 { Seq::empty() }
  else if q_is_key(s[n - 1]) { q_keys(s, n - 1).push(s[n - 1]) } else { q_keys(s, n - 1) }
}
// indices of triggered actions, in order
pub open spec fn q_actions(s: Seq<KeyEvent>, n: int) -> Seq<int> decreases n {
  if n <= 0 { Seq::empty() }
  else if q_action(s[n - 1].key) && s[n - 1].state == 1 { q_actions(s, n - 1).push(s[n - 1].key - 0xF200) }
  else { q_actions(s, n - 1) }
}
// pressed virtual keys from index m, in order
pub open spec fn q_virtuals(s: Seq<KeyEvent>, m: int, n: int) -> Seq<u16> decreases n - m {
  if n <= m { Seq::empty() }
  else if q_virtual(s[n - 1].key) && s[n - 1].state == 1 { q_virtuals(s, m, n - 1).push(s[n - 1].key) }
  else { q_virtuals(s, m, n - 1) }
}
pub open spec fn at_most<T>(s: Seq<T>, n: int) -> Seq<T> { if s.len() <= n { s } else { s.take(n) } }

// output of the mapping for one input event: a trailing timeout is a request, wheel events get the input's delta
pub open spec fn q_strip(o: Seq<KeyEvent>) -> Seq<KeyEvent> {
  if o.len() > 0 && q_timeout(o.last().key) { o.drop_last() } else { o }
}
pub open spec fn q_delta(o: Seq<KeyEvent>, i: KeyEvent) -> Seq<KeyEvent> {
  if q_wheel(i.key) {
    Seq::new(o.len(), |k: int| if q_wheel(o[k].key) && o[k].value == 0 { KeyEvent { value: (i.value as int % 4096) as u16, ..o[k] } } else { o[k] })
  } else { o }
}
pub open spec fn q_ups(keys: Seq<u16>) -> Seq<KeyEvent> {
  Seq::new(keys.len(), |k: int| KeyEvent { key: keys[k], state: 0, value: 0 })
}
pub uninterp spec fn stage_exits(m: Option<MultiStage>) -> bool;

// number of events of the history which are no longer queued
pub open spec fn q_n(s: ServerState) -> int { s.g_queue.len() - s.m_send_buffer.len() }
pub open spec fn q_suffix(s: ServerState) -> bool {
  q_n(s) >= 0 && s.m_send_buffer =~= s.g_queue.skip(q_n(s))
}
// everything taken from the queue was delivered once, in order
pub open spec fn q_ok(s: ServerState) -> bool {
  &&& q_suffix(s)
  &&& s.g_sent == q_keys(s.g_queue, q_n(s))
  &&& s.g_actions == q_actions(s.g_queue, q_n(s))
}
pub open spec fn q_grown(pre: ServerState, post: ServerState) -> bool {
  &&& q_suffix(post)
  &&& post.g_queue.len() >= pre.g_queue.len()
  &&& post.g_queue.take(pre.g_queue.len() as int) =~= pre.g_queue
}
// only appends to the queue, nothing is delivered
pub open spec fn q_appends(pre: ServerState, post: ServerState) -> bool {
  &&& q_grown(pre, post)
  &&& q_n(post) == q_n(pre)
  &&& post.g_sent == pre.g_sent
  &&& post.g_actions == pre.g_actions
  &&& post.g_failed == pre.g_failed
  &&& post.m_sending_key == pre.m_sending_key
}
pub open spec fn q_step(pre: ServerState, post: ServerState) -> bool {
  if pre.m_sending_key { q_appends(pre, post) && post.g_toggled == pre.g_toggled && (post.m_flush_scheduled_at == pre.m_flush_scheduled_at || post.m_flush_scheduled_at is None) }
  else { q_grown(pre, post) && q_ok(post) && !post.m_sending_key }
}
pub open spec fn q_pre(s: ServerState) -> bool { q_suffix(s) && (!s.m_sending_key ==> q_ok(s)) }

pub proof fn lemma_q_same(a: Seq<KeyEvent>, b: Seq<KeyEvent>, m: int, n: int)
  requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k]
  ensures q_keys(a, n) == q_keys(b, n), q_actions(a, n) == q_actions(b, n),
    m >= 0 ==> q_virtuals(a, m, n) == q_virtuals(b, m, n)
  decreases n
{
  if n > 0 { lemma_q_same(a, b, m, n - 1); }
}
pub broadcast proof fn lemma_q_grown(pre: ServerState, post: ServerState)
  requires #[trigger] q_grown(pre, post)
  ensures
    forall|k: int| 0 <= k < pre.g_queue.len() ==> #[trigger] post.g_queue[k] == pre.g_queue[k],
    forall|n: int| n <= pre.g_queue.len() ==> #[trigger] q_keys(post.g_queue, n) == q_keys(pre.g_queue, n),
    forall|n: int| n <= pre.g_queue.len() ==> #[trigger] q_actions(post.g_queue, n) == q_actions(pre.g_queue, n),
    forall|m: int, n: int| 0 <= m && n <= pre.g_queue.len() ==> #[trigger] q_virtuals(post.g_queue, m, n) == q_virtuals(pre.g_queue, m, n),
{
  let (a, b) = (post.g_queue, pre.g_queue);
  assert forall|k: int| 0 <= k < b.len() implies #[trigger] a[k] == b[k] by {
    assert(a.take(b.len() as int)[k] == b[k]);
  }
  assert forall|n: int| n <= b.len() implies #[trigger] q_keys(a, n) == q_keys(b, n) by { lemma_q_same(a, b, 0, n); }
  assert forall|n: int| n <= b.len() implies #[trigger] q_actions(a, n) == q_actions(b, n) by { lemma_q_same(a, b, 0, n); }
  assert forall|m: int, n: int| 0 <= m && n <= b.len() implies #[trigger] q_virtuals(a, m, n) == q_virtuals(b, m, n) by { lemma_q_same(a, b, m, n); }
}
pub broadcast proof fn lemma_q_add(a: Seq<KeyEvent>, b: Seq<KeyEvent>)
  ensures
    forall|n: int| 0 <= n <= a.len() ==> #[trigger] (#[trigger] a.add(b)).take(n) == a.take(n),
    forall|n: int| 0 <= n <= a.len() ==> #[trigger] a.add(b).skip(n) == a.skip(n).add(b),
    forall|n: int| n <= a.len() ==> #[trigger] q_keys(a.add(b), n) == q_keys(a, n),
    forall|n: int| n <= a.len() ==> #[trigger] q_actions(a.add(b), n) == q_actions(a, n),
{
  assert forall|n: int| n <= a.len() implies #[trigger] q_keys(a.add(b), n) == q_keys(a, n) by { lemma_q_same(a.add(b), a, 0, n); }
  assert forall|n: int| n <= a.len() implies #[trigger] q_actions(a.add(b), n) == q_actions(a, n) by { lemma_q_same(a.add(b), a, 0, n); }
  assert forall|n: int| 0 <= n <= a.len() implies #[trigger] a.add(b).take(n) == a.take(n) by {
    assert(a.add(b).take(n) =~= a.take(n));
  }
  assert forall|n: int| 0 <= n <= a.len() implies #[trigger] a.add(b).skip(n) == a.skip(n).add(b) by {
    assert(a.add(b).skip(n) =~= a.skip(n).add(b));
  }
}

// nothing is left in the queue unless a later flush is scheduled or the device refused an event
pub open spec fn q_settled(s: ServerState) -> bool {
  !s.m_sending_key ==> s.m_send_buffer.len() == 0 || s.m_flush_scheduled_at is Some || s.g_failed
}
// what a flush processed: from..to, in order
pub open spec fn q_flushed(pre: ServerState, post: ServerState, ret: bool) -> bool {
  let from = q_n(pre);
  let to = q_n(post);
  &&& from <= to
  &&& forall|k: int| from <= k < to - 1 ==> !q_timeout(#[trigger] post.g_queue[k].key)
  &&& post.g_toggled == pre.g_toggled.add(at_most(q_virtuals(post.g_queue, from, to), 9))
  &&& !ret ==> post.g_failed && post.m_send_buffer.len() > 0
  &&& ret ==> post.g_failed == pre.g_failed
  &&& ret && to > from && q_timeout(post.g_queue[to - 1].key) ==>
      post.m_flush_scheduled_at is Some && post.g_delay == real_duration(post.g_queue[to - 1].value as int, 1, 1000)
  &&& ret && !(to > from && q_timeout(post.g_queue[to - 1].key)) ==> post.m_send_buffer.len() == 0 && post.m_flush_scheduled_at is None
}
