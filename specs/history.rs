// every key press in the history belongs to a held key or was released
#[verifier::opaque]
pub open spec fn recorded(g: Keys, h: Seq<KeyEvent>) -> bool {
  &&& forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).state <= 1 && h[i].key != k_timeout() && !k_virtual(h[i].key)
  &&& forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).state == 1 ==> g(h[i].key) || up_from(h, i, h[i].key)
  &&& forall|i: int, j: int| 0 <= i < j < h.len() && (#[trigger] h[i]).key == (#[trigger] h[j]).key && h[i].state == 1 && h[j].state == 1
    ==> up_between(h, i, j, h[i].key)
  &&& forall|j: int| 0 <= j < h.len() && (#[trigger] h[j]).state == 0 ==> pressed_before(h, j, h[j].key)
}
// the last event of the key before position j is its press
pub open spec fn pressed_before(h: Seq<KeyEvent>, j: int, k: u16) -> bool {
  exists|i: int| 0 <= i < j && (#[trigger] h[i]).key == k && h[i].state == 1 && !up_between(h, i, j, k)
}
pub open spec fn up_between(h: Seq<KeyEvent>, i: int, j: int, k: u16) -> bool {
  exists|m: int| i < m < j && (#[trigger] h[m]).key == k && h[m].state == 0
}
pub broadcast proof fn lemma_recorded_at(g: Keys, h: Seq<KeyEvent>, i: int)
  requires #[trigger] recorded(g, h), 0 <= i < h.len()
  ensures (#[trigger] h[i]).state == 1 ==> g(h[i].key) || up_from(h, i, h[i].key), h[i].state <= 1
{
  reveal(recorded);
}
pub broadcast proof fn lemma_recorded_more(g: Keys, j: Keys, h: Seq<KeyEvent>)
  requires #[trigger] recorded(g, h), forall|k: u16| #[trigger] g(k) ==> j(k)
  ensures #[trigger] recorded(j, h)
{
  reveal(recorded);
}
pub broadcast proof fn lemma_recorded_empty(g: Keys, h: Seq<KeyEvent>)
  requires h.len() == 0
  ensures #[trigger] recorded(g, h)
{
  reveal(recorded);
}
pub open spec fn released_in(h: Seq<KeyEvent>, k: u16) -> bool {
  forall|i: int| 0 <= i < h.len() && (#[trigger] h[i]).key == k && h[i].state == 1 ==> up_from(h, i, k)
}
pub broadcast proof fn lemma_released_last(h: Seq<KeyEvent>, k: u16, l: int)
  requires 0 <= l < h.len(), h[l].key == k, h[l].state == 0, forall|j: int| l < j < h.len() ==> (#[trigger] h[j]).key != k
  ensures #[trigger] released_in(h, k), (#[trigger] h[l]).key == k
{
  reveal(up_from);
}
pub broadcast proof fn lemma_pressed_last(h: Seq<KeyEvent>, k: u16, l: int)
  requires 0 <= l < h.len(), h[l].key == k, h[l].state == 1, forall|j: int| l < j < h.len() ==> (#[trigger] h[j]).key != k
  ensures #[trigger] pressed_before(h, h.len() as int, k), (#[trigger] h[l]).key == k
{
}
pub broadcast proof fn lemma_recorded_front(g: Keys, h: Seq<KeyEvent>)
  requires recorded(g, h), h.len() > 0
  ensures (#[trigger] h[0]).state == 1, #[trigger] recorded(g, h)
{
  reveal(recorded);
  if h[0].state == 0 { assert(pressed_before(h, 0, h[0].key)); }
}
pub broadcast proof fn lemma_recorded_released(g: Keys, h: Seq<KeyEvent>, k: u16)
  requires #[trigger] recorded(and_key(g, k), h)
  ensures released_in(h, k) || g(k) || k == k_timeout() || k_virtual(k) ==> recorded(g, h)
{
  reveal(recorded);
}
// the event is added when it changes the state of the key
pub broadcast proof fn lemma_recorded_push(g: Keys, h: Seq<KeyEvent>, e: KeyEvent)
  requires recorded(and_key(g, e.key), h), e.state <= 1, e.state == 1 ==> g(e.key) && released_in(h, e.key),
    e.state == 0 ==> pressed_before(h, h.len() as int, e.key),
    e.key != k_timeout(), !k_virtual(e.key),
  ensures #[trigger] recorded(g, h.push(e))
{
  reveal(recorded);
  reveal(up_from);
  let n = h.push(e);
  assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).state == 1 implies g(n[i].key) || up_from(n, i, n[i].key) by {
    if i < h.len() {
      assert(n[i] == h[i]);
      if and_key(g, e.key)(h[i].key) && !g(h[i].key) {
        assert(n[h.len() as int] == e);
      } else {
        lemma_up_push(h, e, i, h[i].key);
      }
    }
  }
  assert forall|i: int, j: int| 0 <= i < j < n.len() && (#[trigger] n[i]).key == (#[trigger] n[j]).key && n[i].state == 1 && n[j].state == 1
    implies up_between(n, i, j, n[i].key) by {
    assert(n[i] == h[i]);
    if j < h.len() {
      assert(n[j] == h[j]);
      assert(up_between(h, i, j, h[i].key));
      let m = choose|m: int| i < m < j && (#[trigger] h[m]).key == h[i].key && h[m].state == 0;
      assert(n[m] == h[m]);
    } else {
      assert(up_from(h, i, h[i].key));
      let m = choose|m: int| i <= m < h.len() && (#[trigger] h[m]).key == h[i].key && h[m].state == 0;
      assert(n[m] == h[m]);
    }
  }
  assert forall|j: int| 0 <= j < n.len() && (#[trigger] n[j]).state == 0 implies pressed_before(n, j, n[j].key) by {
    let k = n[j].key;
    if j < h.len() { assert(n[j] == h[j]); }
    assert(pressed_before(h, j, k));
    let i = choose|i: int| 0 <= i < j && (#[trigger] h[i]).key == k && h[i].state == 1 && !up_between(h, i, j, k);
    assert(n[i] == h[i]);
    assert forall|m: int| i < m < j implies !((#[trigger] n[m]).key == k && n[m].state == 0) by { assert(n[m] == h[m]); }
  }
}
pub open spec fn old_index(u: int, i: int) -> int { if i + 1 < u { i + 1 } else { i + 2 } }
pub open spec fn new_index(u: int, i: int) -> int { if i < u { i - 1 } else { i - 2 } }
proof fn lemma_removed_at(h: Seq<KeyEvent>, u: int, n: Seq<KeyEvent>)
  requires 0 < u < h.len(), n == h.remove(u).remove(0)
  ensures n.len() == h.len() - 2, forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == h[old_index(u, i)]
{
}
// no press of the key of the first event between it and its first release
proof fn lemma_first_release(g: Keys, h: Seq<KeyEvent>, u: int, y: int)
  requires recorded(g, h), 0 < u < h.len(), h[0].state == 1, h[u].key == h[0].key, h[u].state == 0,
    forall|m: int| 0 <= m < u ==> (#[trigger] h[m]).key != h[0].key || h[m].state != 0,
    0 < y < u, h[y].key == h[0].key
  ensures h[y].state != 1
{
  reveal(recorded);
  if h[y].state == 1 {
    assert(up_between(h, 0, y, h[0].key));
    let m = choose|m: int| 0 < m < y && (#[trigger] h[m]).key == h[0].key && h[m].state == 0;
    assert(false);
  }
}
// the first event and its release are removed
pub broadcast proof fn lemma_recorded_remove(g: Keys, h: Seq<KeyEvent>, u: int)
  requires recorded(g, h), 0 < u < h.len(), h[0].state == 1, h[u].key == h[0].key, h[u].state == 0,
    forall|m: int| 0 <= m < u ==> (#[trigger] h[m]).key != h[0].key || h[m].state != 0
  ensures #[trigger] recorded(g, h.remove(u).remove(0))
{
  let n = h.remove(u).remove(0);
  lemma_removed_at(h, u, n);
  assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).state <= 1 && n[i].key != k_timeout() && !k_virtual(n[i].key) by {
    reveal(recorded);
    assert(n[i] == h[old_index(u, i)]);
  }
  assert forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).state == 1 implies g(n[i].key) || up_from(n, i, n[i].key) by {
    let y = old_index(u, i);
    assert(n[i] == h[y]);
    lemma_recorded_at(g, h, y);
    if !g(h[y].key) {
      assert(up_from(h, y, h[y].key));
      reveal(up_from);
      let m = choose|m: int| y <= m < h.len() && (#[trigger] h[m]).key == h[y].key && h[m].state == 0;
      if m == u { lemma_first_release(g, h, u, y); }
      assert(n[new_index(u, m)] == h[m]);
    }
  }
  assert forall|i: int, j: int| 0 <= i < j < n.len() && (#[trigger] n[i]).key == (#[trigger] n[j]).key && n[i].state == 1 && n[j].state == 1
    implies up_between(n, i, j, n[i].key) by {
    let y = old_index(u, i);
    let z = old_index(u, j);
    assert(n[i] == h[y] && n[j] == h[z]);
    assert(up_between(h, y, z, h[y].key)) by { reveal(recorded); }
    let m = choose|m: int| y < m < z && (#[trigger] h[m]).key == h[y].key && h[m].state == 0;
    if m == u { lemma_first_release(g, h, u, y); }
    assert(n[new_index(u, m)] == h[m]);
  }
  assert forall|j: int| 0 <= j < n.len() && (#[trigger] n[j]).state == 0 implies pressed_before(n, j, n[j].key) by {
    let k = n[j].key;
    let z = old_index(u, j);
    assert(n[j] == h[z]);
    assert(pressed_before(h, z, k)) by { reveal(recorded); }
    let y = choose|i: int| 0 <= i < z && (#[trigger] h[i]).key == k && h[i].state == 1 && !up_between(h, i, z, k);
    if y == 0 {
      assert(h[z].key == h[0].key && h[z].state == 0);
      if z > u { assert(h[u].key == k); assert(up_between(h, 0, z, k)); }
      assert(false);
    }
    assert(y != u);
    let i = new_index(u, y);
    assert(n[i] == h[y]);
    if up_between(n, i, j, k) {
      let m = choose|m: int| i < m < j && (#[trigger] n[m]).key == k && n[m].state == 0;
      assert(n[m] == h[old_index(u, m)]);
      assert(up_between(h, y, z, k));
    }
  }
  reveal(recorded);
}
pub broadcast group history_lemmas {
  lemma_recorded_at, lemma_recorded_more, lemma_recorded_empty, lemma_released_last, lemma_pressed_last, lemma_recorded_front, lemma_recorded_released, lemma_recorded_push, lemma_recorded_remove,
}
