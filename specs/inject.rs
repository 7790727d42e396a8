// injected sequences
pub uninterp spec fn parsed(text: Seq<i8>) -> Seq<KeyEvent>;
pub open spec fn is_generic(k: u16) -> bool { 0xF300 <= k <= 0xF303 }
pub open spec fn side(k: u16) -> u16 {
  if k == 0xF300 { 0x2A } else if k == 0xF301 { 0x1D } else if k == 0xF302 { 0x38 } else if k == 0xF303 { 0x7D } else { k }
}
// whether the first n events leave the key pressed
pub open spec fn left_down(q: Seq<KeyEvent>, n: int, k: u16) -> bool decreases n {
  if n <= 0 { false }
  else if q[n - 1].key == k && q[n - 1].state == 1 { true }
  else if q[n - 1].key == k && q[n - 1].state == 0 { false }
  else { left_down(q, n - 1, k) }
}
pub open spec fn sided(q: Seq<KeyEvent>, o: Seq<KeyEvent>, n: int) -> bool {
  &&& q.len() == o.len()
  &&& forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == (if i < n { KeyEvent { key: side(o[i].key), ..o[i] } } else { o[i] })
}
// keys held by the sequence are released at its end, nothing else is added
pub open spec fn completed(q: Seq<KeyEvent>, o: Seq<KeyEvent>) -> bool {
  &&& o.len() <= q.len() && q.subrange(0, o.len() as int) == o
  &&& forall|k: u16| !left_down(q, q.len() as int, k)
  &&& forall|i: int| o.len() <= i < q.len() ==> (#[trigger] q[i]).state == 0 && left_down(o, o.len() as int, q[i].key)
  &&& forall|i: int, j: int| o.len() <= i < j < q.len() ==> q[i].key != q[j].key
}
pub open spec fn injected(q: Seq<KeyEvent>, text: Seq<i8>) -> bool {
  exists|o: Seq<KeyEvent>| #[trigger] sided(o, parsed(text), parsed(text).len() as int) && completed(q, o)
}
// the keys in `down` are those left down by the first n events
#[verifier::opaque]
pub open spec fn tracks(down: Seq<u16>, q: Seq<KeyEvent>, n: int) -> bool {
  &&& forall|k: u16| down.contains(k) <==> #[trigger] left_down(q, n, k)
  &&& down.no_duplicates()
}
#[verifier::opaque]
pub open spec fn releasing(q: Seq<KeyEvent>, o: Seq<KeyEvent>, down: Seq<u16>, n: int) -> bool {
  &&& q.len() == o.len() + n
  &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] q[i] == o[i]
  &&& forall|i: int| o.len() <= i < q.len() ==> (#[trigger] q[i]).state == 0 && q[i].key == down[i - o.len()]
}
pub broadcast proof fn lemma_releasing_none(q: Seq<KeyEvent>, down: Seq<u16>)
  ensures #[trigger] releasing(q, q, down, 0)
{ reveal(releasing); }
pub broadcast proof fn lemma_releasing(q: Seq<KeyEvent>, o: Seq<KeyEvent>, down: Seq<u16>, n: int, e: KeyEvent, m: int)
  requires #[trigger] releasing(q, o, down, n), e.state == 0, e.key == down[n], n >= 0, m == n + 1
  ensures #[trigger] releasing(q.push(e), o, down, m)
{ reveal(releasing); }
pub proof fn lemma_tracks_key(d: Seq<u16>, q: Seq<KeyEvent>, n: int, k: u16)
  requires tracks(d, q, n)
  ensures d.contains(k) <==> left_down(q, n, k)
{ reveal(tracks); }
pub broadcast proof fn lemma_tracks_none(q: Seq<KeyEvent>)
  ensures #[trigger] tracks(Seq::<u16>::empty(), q, 0)
{ reveal(tracks); }
pub broadcast proof fn lemma_tracks_same(d: Seq<u16>, q: Seq<KeyEvent>, n: int, m: int)
  requires #[trigger] tracks(d, q, n), m == n + 1, 0 <= n < q.len(),
    q[n].state == 1 ==> d.contains(q[n].key), q[n].state == 0 ==> !d.contains(q[n].key)
  ensures #[trigger] tracks(d, q, m)
{
  reveal(tracks);
  assert forall|k: u16| d.contains(k) <==> #[trigger] left_down(q, m, k) by { assert(d.contains(k) <==> left_down(q, n, k)); }
}
pub broadcast proof fn lemma_tracks_push(d: Seq<u16>, q: Seq<KeyEvent>, n: int, m: int, x: u16)
  requires #[trigger] tracks(d, q, n), m == n + 1, 0 <= n < q.len(), q[n].state == 1, !d.contains(x), x == q[n].key
  ensures #[trigger] tracks(d.push(x), q, m)
{
  reveal(tracks);
  let d1 = d.push(x);
  assert forall|k: u16| d1.contains(k) <==> #[trigger] left_down(q, m, k) by {
    assert(d.contains(k) <==> left_down(q, n, k));
    assert(d1[d.len() as int] == x);
    if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(d1[i] == k); }
  }
  assert forall|i: int, j: int| 0 <= i < d1.len() && 0 <= j < d1.len() && i != j implies d1[i] != d1[j] by {
    if i == d.len() { assert(d.contains(d[j])); } else if j == d.len() { assert(d.contains(d[i])); }
  }
}
pub broadcast proof fn lemma_tracks_remove(d: Seq<u16>, q: Seq<KeyEvent>, n: int, m: int, x: int)
  requires #[trigger] tracks(d, q, n), m == n + 1, 0 <= n < q.len(), q[n].state == 0, 0 <= x < d.len(), d[x] == q[n].key
  ensures #[trigger] tracks(d.remove(x), q, m)
{
  reveal(tracks);
  let d1 = d.remove(x);
  assert forall|k: u16| d1.contains(k) <==> #[trigger] left_down(q, m, k) by {
    assert(d.contains(k) <==> left_down(q, n, k));
    if d.contains(k) && k != d[x] {
      let i = choose|i: int| 0 <= i < d.len() && d[i] == k;
      if i < x { assert(d1[i] == k); } else { assert(d1[i - 1] == k); }
    }
    if d1.contains(k) {
      let i = choose|i: int| 0 <= i < d1.len() && d1[i] == k;
      if i < x { assert(d[i] == k); } else { assert(d[i + 1] == k); }
    }
  }
}
pub broadcast group inject_lemmas { lemma_completed, lemma_tracks_remove, lemma_tracks_push, lemma_tracks_same, lemma_tracks_none, lemma_releasing, lemma_releasing_none }
pub proof fn lemma_left_down(q: Seq<KeyEvent>, o: Seq<KeyEvent>, n: int, k: u16)
  requires 0 <= n <= q.len(), n <= o.len(), q.subrange(0, n) == o.subrange(0, n)
  ensures left_down(q, n, k) == left_down(o, n, k)
  decreases n
{
  if n > 0 {
    assert(q[n - 1] == q.subrange(0, n)[n - 1]);
    assert(o[n - 1] == o.subrange(0, n)[n - 1]);
    assert(q.subrange(0, n - 1) =~= q.subrange(0, n).subrange(0, n - 1));
    assert(o.subrange(0, n - 1) =~= o.subrange(0, n).subrange(0, n - 1));
    lemma_left_down(q, o, n - 1, k);
  }
}
pub proof fn lemma_released(q: Seq<KeyEvent>, o: Seq<KeyEvent>, down: Seq<u16>, n: int, k: u16)
  requires releasing(q, o, down, down.len() as int), 0 <= n <= down.len()
  ensures left_down(q, o.len() + n, k) == (left_down(o, o.len() as int, k) && !down.subrange(0, n).contains(k))
  decreases n
{
  reveal(releasing);
  if n == 0 {
    assert(q.subrange(0, o.len() as int) =~= o.subrange(0, o.len() as int));
    lemma_left_down(q, o, o.len() as int, k);
  } else {
    lemma_released(q, o, down, n - 1, k);
    let e = q[o.len() + n - 1];
    assert(e.key == down[n - 1]);
    assert(down.subrange(0, n) =~= down.subrange(0, n - 1).push(down[n - 1]));
    assert(down.subrange(0, n)[n - 1] == down[n - 1]);
    if down.subrange(0, n).contains(k) && k != down[n - 1] {
      let i = choose|i: int| 0 <= i < n && #[trigger] down.subrange(0, n)[i] == k;
      assert(down.subrange(0, n - 1)[i] == k);
    }
    if down.subrange(0, n - 1).contains(k) {
      let i = choose|i: int| 0 <= i < n - 1 && #[trigger] down.subrange(0, n - 1)[i] == k;
      assert(down.subrange(0, n)[i] == k);
    }
  }
}
pub broadcast proof fn lemma_completed(q: Seq<KeyEvent>, o: Seq<KeyEvent>, down: Seq<u16>)
  requires #[trigger] releasing(q, o, down, down.len() as int), #[trigger] tracks(down, o, o.len() as int)
  ensures completed(q, o)
{
  reveal(releasing);
  assert(q.subrange(0, o.len() as int) =~= o);
  reveal(tracks);
  assert forall|k: u16| !left_down(q, q.len() as int, k) by {
    lemma_released(q, o, down, down.len() as int, k);
    assert(down.subrange(0, down.len() as int) =~= down);
    assert(down.contains(k) <==> left_down(o, o.len() as int, k));
  }
  assert forall|i: int| o.len() <= i < q.len() implies (#[trigger] q[i]).state == 0 && left_down(o, o.len() as int, q[i].key) by {
    assert(q[o.len() + (i - o.len())].key == down[i - o.len()]);
    assert(down.contains(down[i - o.len()]));
    assert(down.contains(q[i].key) <==> left_down(o, o.len() as int, q[i].key));
  }
  assert forall|i: int, j: int| o.len() <= i < j < q.len() implies q[i].key != q[j].key by {
    assert(q[o.len() + (i - o.len())].key == down[i - o.len()]);
    assert(q[o.len() + (j - o.len())].key == down[j - o.len()]);
  }
}
