// the keys of the exit sequence and which keys count as keyboard keys
pub open spec fn exit_key(i: int) -> u16 {
  if i == 0 { 0x2A } else if i == 1 { 0x01 } else { 0x25 }
}
pub open spec fn is_keyboard(k: u16) -> bool {
  0 < k <= 0xEFFF && !(0x110 <= k <= 0x114) && !(0x150 <= k <= 0x153)
}

// effect of one input event on the progress in the exit sequence
pub open spec fn exit_step(pos: int, e: KeyEvent) -> int {
  if !is_keyboard(e.key) { pos }
  else if e.state != 1 { 0 }
  else if 0 < pos <= 3 && e.key == exit_key(pos - 1) { pos }
  else if 0 <= pos < 3 && e.key == exit_key(pos) { pos + 1 }
  else { 0 }
}

pub open spec fn stages_ok(m: MultiStage) -> bool {
  forall|i: int| 0 <= i < m.m_stages.len() ==> (#[trigger] m.m_stages[i]) is Some
    && m.m_stages[i].unwrap().m_exit_sequence_position <= 3
}
pub open spec fn epos(m: MultiStage) -> int {
  if m.m_stages.len() > 0 { m.m_stages[0].unwrap().m_exit_sequence_position as int } else { 0 }
}

// progress after a whole history of input events
pub open spec fn exit_run(pos: int, h: Seq<KeyEvent>) -> int decreases h.len() {
  if h.len() == 0 { pos } else { exit_step(exit_run(pos, h.drop_last()), h.last()) }
}
// events which may occur while key k of the sequence is the last one pressed
pub open spec fn only_repeats(h: Seq<KeyEvent>, k: u16) -> bool {
  forall|i: int| 0 <= i < h.len() ==> !is_keyboard((#[trigger] h[i]).key) || (h[i].key == k && h[i].state == 1)
}

pub proof fn lemma_stay(pos: int, h: Seq<KeyEvent>)
  requires 1 <= pos <= 3, only_repeats(h, exit_key(pos - 1))
  ensures exit_run(pos, h) == pos
  decreases h.len()
{
  if h.len() > 0 {
    assert forall|i: int| 0 <= i < h.drop_last().len() implies !is_keyboard((#[trigger] h.drop_last()[i]).key)
      || (h.drop_last()[i].key == exit_key(pos - 1) && h.drop_last()[i].state == 1) by { assert(h.drop_last()[i] == h[i]); }
    lemma_stay(pos, h.drop_last());
    assert(h.last() == h[h.len() - 1]);
  }
}
pub proof fn lemma_stay0(h: Seq<KeyEvent>)
  requires forall|i: int| 0 <= i < h.len() ==> !is_keyboard((#[trigger] h[i]).key)
  ensures exit_run(0, h) == 0
  decreases h.len()
{
  if h.len() > 0 {
    assert forall|i: int| 0 <= i < h.drop_last().len() implies !is_keyboard((#[trigger] h.drop_last()[i]).key)
      by { assert(h.drop_last()[i] == h[i]); }
    lemma_stay0(h.drop_last());
    assert(h.last() == h[h.len() - 1]);
  }
}
// the exit sequence after the release of any keyboard key (or at startup) is always recognised
pub proof fn lemma_exit_reached(pos: int, up: KeyEvent, h0: Seq<KeyEvent>, a: KeyEvent, h1: Seq<KeyEvent>,
    b: KeyEvent, h2: Seq<KeyEvent>, c: KeyEvent)
  requires
    is_keyboard(up.key), up.state == 0,
    forall|i: int| 0 <= i < h0.len() ==> !is_keyboard((#[trigger] h0[i]).key),
    a.key == exit_key(0), a.state == 1, only_repeats(h1, exit_key(0)),
    b.key == exit_key(1), b.state == 1, only_repeats(h2, exit_key(1)),
    c.key == exit_key(2), c.state == 1,
  ensures
    exit_run(exit_step(pos, up), h0) == 0,
    exit_step(exit_run(exit_step(exit_run(exit_step(0, a), h1), b), h2), c) == 3,
{
  lemma_stay0(h0);
  lemma_stay(1, h1);
  lemma_stay(2, h2);
}
// progress 3 needs the press of all three keys: the latest keyboard events are presses of K after Escape after Shift
pub open spec fn ends_with_exit(h: Seq<KeyEvent>, p: int) -> bool decreases h.len() {
  if p <= 0 { true }
  else if h.len() == 0 { false }
  else if !is_keyboard(h.last().key) { ends_with_exit(h.drop_last(), p) }
  else { h.last().state == 1 && h.last().key == exit_key(p - 1)
         && (ends_with_exit(h.drop_last(), p) || ends_with_exit(h.drop_last(), p - 1)) }
}
pub proof fn lemma_only_exit(h: Seq<KeyEvent>)
  ensures 0 <= exit_run(0, h) <= 3, ends_with_exit(h, exit_run(0, h))
  decreases h.len()
{
  if h.len() > 0 { lemma_only_exit(h.drop_last()); }
}
