// a virtual key event reaching the mapping agrees with the recorded state
pub open spec fn v_agrees(down: Seq<u16>, e: KeyEvent) -> bool {
  f_virtual(e.key) ==> e.state <= 1 && e.value == 0 && (e.state == 1) == down.contains(e.key)
}
// the state the client was told last
pub open spec fn v_told(reports: Seq<(u16, u16)>, key: u16) -> bool
  decreases reports.len()
{
  if reports.len() == 0 { false }
  else if reports.last().0 == key { reports.last().1 == 1 }
  else { v_told(reports.drop_last(), key) }
}
pub broadcast proof fn lemma_told(reports: Seq<(u16, u16)>, r: (u16, u16), key: u16)
  ensures #[trigger] v_told(reports.push(r), key) == if r.0 == key { r.1 == 1 } else { v_told(reports, key) },
{ assert(reports.push(r).drop_last() =~= reports); }
// the keys from the i-th on are still reported as pressed
pub open spec fn v_left(down: Seq<u16>, i: int, reports: Seq<(u16, u16)>) -> bool {
  forall|k: u16| #[trigger] v_told(reports, k) == exists|j: int| i <= j < down.len() && #[trigger] down[j] == k
}
pub broadcast proof fn lemma_left(down: Seq<u16>, i: int, reports: Seq<(u16, u16)>)
  requires v_left(down, i, reports), 0 <= i < down.len(), down.no_duplicates(),
  ensures #![trigger v_left(down, i + 1, reports.push((down[i], 0u16)))] v_left(down, i + 1, reports.push((down[i], 0u16))),
{
  let r = reports.push((down[i], 0u16));
  assert forall|k: u16| #[trigger] v_told(r, k) == exists|j: int| i + 1 <= j < down.len() && #[trigger] down[j] == k by {
    lemma_told(reports, (down[i], 0u16), k);
    if v_told(reports, k) { let j = choose|j: int| i <= j < down.len() && down[j] == k; if k != down[i] { assert(i + 1 <= j); } }
  }
}
pub broadcast group virtual_lemmas { lemma_told, lemma_left }
pub open spec fn v_base(s: ServerState) -> bool {
  &&& s.m_virtual_keys_down.no_duplicates()
  &&& s.m_last_key_event.key != 0xF001
  &&& f_lens(s)
}
pub open spec fn v_last(s: ServerState) -> bool { v_agrees(s.m_virtual_keys_down, s.m_last_key_event) }
pub open spec fn v_known(s: ServerState) -> bool { forall|k: u16| #![trigger s.m_virtual_keys_down.contains(k)] #![trigger v_told(s.g_reports, k)] s.m_virtual_keys_down.contains(k) == v_told(s.g_reports, k) }
pub open spec fn v_ok(s: ServerState) -> bool { v_base(s) && v_last(s) && v_known(s) }
pub open spec fn f_keyboard(k: u16) -> bool { f_device(k) && !(0x110 <= k <= 0x114) && !f_wheel(k) }
// recorded state and reports are untouched unless the server resets itself
pub open spec fn v_same(pre: ServerState, post: ServerState) -> bool {
  &&& v_base(post)
  &&& post.g_exit >= pre.g_exit
  &&& post.g_exit == pre.g_exit ==> post.m_virtual_keys_down == pre.m_virtual_keys_down && post.g_reports == pre.g_reports
}
pub open spec fn v_wanted(down: bool, state: u16) -> bool { if state == 1 { true } else if state == 0 { false } else { !down } }
pub open spec fn v_event(key: u16, down: bool) -> KeyEvent { KeyEvent { key: key, state: if down { 1 } else { 0 }, value: 0 } }
// one key changed: recorded, fed to the mapping and reported exactly once
pub open spec fn v_changed(pre: ServerState, post: ServerState, key: u16, down: bool) -> bool {
  &&& post.m_virtual_keys_down.contains(key) == down
  &&& forall|k: u16| k != key ==> #[trigger] post.m_virtual_keys_down.contains(k) == pre.m_virtual_keys_down.contains(k)
  &&& post.g_fed.len() > pre.g_fed.len() && post.g_fed.last() == v_event(key, down) && post.g_fed_dev.last() == -2
  &&& forall|k: int| pre.g_fed.len() <= k < post.g_fed.len() - 1 ==> (#[trigger] post.g_fed[k]).key == 0xF001
  &&& post.g_reports == pre.g_reports.push((key, if down { 1u16 } else { 0u16 }))
}
