pub open spec fn f_device(k: u16) -> bool { 0 < k <= 0xEFFF }
pub open spec fn f_wheel(k: u16) -> bool { 0x150 <= k <= 0x153 }
pub open spec fn f_virtual(k: u16) -> bool { 0xF100 <= k <= 0xF1FF }
pub open spec fn f_timeout(k: u16) -> bool { k == 0xF001 }
pub uninterp spec fn stage_exits(m: Option<MultiStage>) -> bool;

// the two kinds of events which are not fed to the mapping
pub open spec fn f_repeat(s: ServerState, e: KeyEvent) -> bool {
  e == s.m_last_key_event && (s.m_flush_scheduled_at is Some || s.m_timeout_start_at is Some)
}
pub open spec fn f_answers(s: ServerState, e: KeyEvent) -> bool {
  s.m_next_key_info_requested && f_device(e.key) && e.key != 0x110 && e.state == 1
}
pub open spec fn f_wheel_down(e: KeyEvent) -> KeyEvent { KeyEvent { key: e.key, state: 1, value: (e.value as int % 4096) as u16 } }

// milliseconds since the timeout was started, saturated
pub open spec fn f_elapsed(now: int, start: int) -> int {
  let ms = c_div(now - start, 1000000);
  if ms < 0 { 0 } else if ms > 4095 { 4095 } else { ms }
}
// nothing was fed
pub open spec fn f_same(pre: ServerState, post: ServerState) -> bool {
  post.g_fed == pre.g_fed && post.g_fed_at == pre.g_fed_at && post.g_fed_dev == pre.g_fed_dev && post.g_exit == pre.g_exit
}
pub open spec fn f_lens(s: ServerState) -> bool {
  s.g_fed.len() == s.g_fed_at.len() && s.g_fed.len() == s.g_fed_dev.len()
}
pub open spec fn f_grown(pre: ServerState, post: ServerState) -> bool {
  &&& f_lens(post)
  &&& post.g_exit >= pre.g_exit
  &&& pre.g_fed.len() <= post.g_fed.len()
  &&& forall|k: int| 0 <= k < pre.g_fed.len() ==> #[trigger] post.g_fed[k] == pre.g_fed[k]
  &&& forall|k: int| 0 <= k < pre.g_fed.len() ==> #[trigger] post.g_fed_dev[k] == pre.g_fed_dev[k]
  &&& forall|k: int| 0 <= k < pre.g_fed.len() ==> #[trigger] post.g_fed_at[k] == pre.g_fed_at[k]
}
pub open spec fn f_pending(s: ServerState, e: KeyEvent) -> bool {
  s.m_timeout_start_at is Some && (e.state == 1 || s.m_cancel_timeout_on_up)
}
// exactly one more event is fed at last, the input itself; before it only the elapsed timeout and
// the press belonging to a wheel event
pub open spec fn f_fed(pre: ServerState, post: ServerState, e: KeyEvent, dev: i32) -> bool {
  let n = pre.g_fed.len();
  let m = post.g_fed.len();
  &&& f_grown(pre, post)
  &&& m > n
  &&& post.g_fed[m - 1] == e
  &&& post.g_fed_dev[m - 1] == dev
  &&& forall|k: int| n <= k < m - 1 ==> f_timeout((#[trigger] post.g_fed[k]).key) && post.g_fed[k].state == 0
        || (f_wheel(e.key) && e.state == 0 && post.g_fed[k] == f_wheel_down(e) && post.g_fed_dev[k] == dev)
  &&& f_wheel(e.key) && e.state == 0 && pre.m_last_key_event != f_wheel_down(e) && !f_answers(pre, f_wheel_down(e)) ==> m >= n + 2 && post.g_fed[m - 2] == f_wheel_down(e)
  &&& !f_wheel(e.key) && !f_pending(pre, e) ==> m == n + 1 && post.g_fed_at[n as int] == pre.g_now
  &&& !f_wheel(e.key) && f_pending(pre, e) ==> m == n + 2
  &&& f_pending(pre, e) ==> m >= n + 2 && post.g_fed[n as int].key == 0xF001 && post.g_fed[n as int].state == 0
        && post.g_fed[n as int].value == f_elapsed(post.g_fed_at[n as int], pre.m_timeout_start_at->Some_0)
}
// a timeout at the end of the mapping's output is awaited
pub open spec fn f_requested(pre: ServerState, post: ServerState, e: KeyEvent) -> bool {
  &&& post.g_req is Some ==> post.m_timeout_start_at == Some(post.g_now)
        && post.m_timeout == real_duration(post.g_req->Some_0.value as int, 1, 1000)
        && post.m_cancel_timeout_on_up == (post.g_req->Some_0.state == 0 || post.g_req->Some_0.state == 9)
  &&& post.g_req is None && !f_wheel(e.key) && !f_pending(pre, e) ==> post.m_timeout_start_at == pre.m_timeout_start_at
        && post.m_timeout == pre.m_timeout && post.m_cancel_timeout_on_up == pre.m_cancel_timeout_on_up
}
