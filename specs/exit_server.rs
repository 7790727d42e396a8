pub open spec fn srv_ok(s: ServerState) -> bool {
  s.m_stage is Some && stages_ok(s.m_stage.unwrap()) && s.m_stage.unwrap().m_output_buffer.len() == 0
}
pub open spec fn spos(s: ServerState) -> int { epos(s.m_stage.unwrap()) }
pub open spec fn nstages(s: ServerState) -> int { s.m_stage.unwrap().m_stages.len() as int }
// does not touch the progress in the exit sequence
pub open spec fn quiet(pre: ServerState, post: ServerState) -> bool {
  &&& srv_ok(post)
  &&& pre.g_exit ==> post.g_exit
  &&& spos(pre) < 3 ==> spos(post) == spos(pre) && nstages(post) == nstages(pre) && post.g_exit == pre.g_exit
}
// events which never reach the mapping: a repeat of the last key while output or a timeout is pending,
// and the one key press which answers a "next key info" request
pub open spec fn is_devkey(k: u16) -> bool { is_keyboard(k) || (0x110 <= k <= 0x114) || (0x150 <= k <= 0x153) }
pub open spec fn swallowed(s: ServerState, e: KeyEvent) -> bool {
  (e == s.m_last_key_event && (s.m_flush_scheduled_at is Some || s.m_timeout_start_at is Some))
  || (s.m_next_key_info_requested && is_devkey(e.key) && e.key != 0x110 && e.state == 1)
}
pub open spec fn fresh_config(m: MultiStage) -> bool {
  stages_ok(m) && m.m_output_buffer.len() == 0 && epos(m) == 0
}
