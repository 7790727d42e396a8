from server_common import EXTERNALS, IGNORE, SERVER_TUS

LENS = ["f_lens(pre)", "pre.m_last_key_event.key != 0xF001"]
GROWN = [("grown", "f_grown(pre, post)"), ("last", "post.m_last_key_event.key != 0xF001")]

FEED_EXTERNALS = {
    **EXTERNALS,
    "std::chrono::steady_clock::now": dict(effect=["{this}.g_now = {ret};"]),
    "ServerState::on_exit_requested": dict(effect=["{this}.g_exit = {this}.g_exit + 1;"]),
    "IClientPort::send_next_key_info": dict(effect=["{this}.g_infos = {this}.g_infos.push(({a0}, {a1}));"]),
    "MultiStage::update": dict(effect=[
        "{this}.m_stage = havoc();",
        "{this}.g_req = if {ret}.len() > 0 && {ret}.last().key == 0xF001 {{ Some({ret}.last()) }} else {{ None }};",
        "{this}.g_fed = {this}.g_fed.push({a0});",
        "{this}.g_fed_at = {this}.g_fed_at.push({this}.g_now);",
        "{this}.g_fed_dev = {this}.g_fed_dev.push({a1} as i32);"]),
    "MultiStage::should_exit": dict(ret="stage_exits({this}.m_stage)"),
    "MultiStage::set_active_client_contexts": dict(effect=["{this}.m_stage = havoc();"]),
    "MultiStage::get_output_keys_down": {},
    "MultiStage::reuse_buffer": dict(effect=["{this}.m_stage = havoc();"]),
    "MultiStage::evaluate_device_filters": dict(effect=["{this}.m_stage = havoc();"]),
    "MultiStage::validate_state": dict(effect=["{this}.m_stage = havoc();"]),
    "MultiStage::has_device_filters": {},
    "MultiStage::active_client_contexts": {},
}
GHOSTS = {"ServerState": [("g_fed", "Seq<KeyEvent>"), ("g_fed_at", "Seq<int>"), ("g_fed_dev", "Seq<i32>"),
                          ("g_now", "int"), ("g_req", "Option<KeyEvent>"), ("g_exit", "int"), ("g_infos", "Seq<(u16, DeviceDesc)>")]}

INV = [("grown", "f_grown(pre, {s})"), ("last", "{s}.m_last_key_event.key != 0xF001")]
INJECT = INV

UNIT = dict(
    id="C04",
    tus=SERVER_TUS,
    include=["feed.rs"],
    safety=False,
    ignore=IGNORE,
    externals=FEED_EXTERNALS,
    ghost_fields=GHOSTS,
    contracts={
        "ServerState::send_key_sequence": dict(),
        "ServerState::release_all_keys": dict(),
        "ServerState::schedule_flush": dict(),
        "ServerState::schedule_timeout": dict(
            ensures=[("timeout", "post.m_timeout_start_at == Some(post.g_now) && post.m_cancel_timeout_on_up == cancel_on_up && post.m_timeout == timeout")]),
        "ServerState::cancel_timeout": dict(ensures=[("cancelled", "post.m_timeout_start_at is None")]),
        "ServerState::set_active_contexts": dict(requires=LENS, ensures=GROWN),
        "ServerState::evaluate_device_filters": dict(requires=LENS, ensures=GROWN),
        "ServerState::set_virtual_key_state": dict(requires=LENS + ["key != 0xF001"], ensures=GROWN),
        "ServerState::reset_configuration": dict(requires=LENS, ensures=GROWN),
        "ServerState::translate_input": dict(
            top=True, requires=LENS,
            ensures=GROWN + [
                ("repeat", "f_repeat(pre, input) ==> post == pre"),
                ("info", "!f_repeat(pre, input) && f_answers(pre, input) ==> f_same(pre, post) && !post.m_next_key_info_requested && post.g_infos.len() == pre.g_infos.len() + 1 && post.g_infos.last().0 == input.key && (0 <= device_index < pre.m_device_descs.len() && pre.m_device_descs.len() < 0x7fffffff ==> post.g_infos.last().1 == pre.m_device_descs[device_index as int])"),
                ("noinfo", "post.g_exit == pre.g_exit && !f_answers(pre, input) && !(f_wheel(input.key) && input.state == 0) ==> post.g_infos == pre.g_infos && post.m_next_key_info_requested == pre.m_next_key_info_requested"),
                ("fed", "post.g_exit == pre.g_exit && !f_repeat(pre, input) && !f_answers(pre, input) ==> f_fed(pre, post, input, device_index)"),
                ("request", "post.g_exit == pre.g_exit && !f_repeat(pre, input) && !f_answers(pre, input) ==> f_requested(pre, post, input)"),
                ("last-key", "post.g_exit == pre.g_exit && !f_repeat(pre, input) && !f_answers(pre, input) && input.key != 0xF001 ==> post.m_last_key_event == input"),
                ("last-kept", "input.key == 0xF001 && post.g_exit == pre.g_exit && pre.m_timeout_start_at is None ==> post.m_last_key_event == pre.m_last_key_event"),
            ]),
        "ServerState::flush_send_buffer": dict(
            requires=LENS, ensures=GROWN, invs=INV),
        "ServerState::on_configuration_message": dict(requires=LENS, ensures=GROWN),
        "ServerState::on_active_contexts_message": dict(requires=LENS, ensures=GROWN),
        "ServerState::on_request_next_key_info_message": dict(
            ensures=[("requested", "post == ServerState { m_next_key_info_requested: true, ..pre }")]),
        "ServerState::on_inject_input_message": dict(requires=LENS, ensures=GROWN, invs=INJECT),
    },
)

# every injected key event is handed on, in order
INJECTED = dict(
    id="C04_inject",
    tus=["server/ServerState.cpp"],
    safety=False,
    ignore=IGNORE,
    externals={**EXTERNALS, "ServerState::translate_input": dict(effect=[
        "{this}.g_given = {this}.g_given.push(({a0}, {a1} as int));"])},
    ghost_fields={"ServerState": [("g_given", "Seq<(KeyEvent, int)>")]},
    spec="""
pub open spec fn injected(s: Seq<KeyEvent>, n: int) -> Seq<(KeyEvent, int)> decreases n {
  if n <= 0 { Seq::empty() }
  else if s[n - 1].state <= 1 && 0 < s[n - 1].key <= 0xEFFF { injected(s, n - 1).push((s[n - 1], -1)) }
  else { injected(s, n - 1) }
}
""",
    contracts={
        "ServerState::schedule_flush": dict(ensures=[("scheduled", "post.m_flush_scheduled_at is Some")]),
        "ServerState::on_inject_input_message": dict(
            top=True,
            ensures=[("handed-on", "post.g_given == pre.g_given.add(injected(sequence, sequence.len() as int))"),
                     ("scheduled", "post.m_flush_scheduled_at is Some")],
            invs=[("given", "{s}.g_given == pre.g_given.add(injected(sequence, {i}))")]),
    },
)
UNITS = [UNIT, INJECTED]
