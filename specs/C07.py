from server_common import IGNORE, SERVER_TUS
from C04 import FEED_EXTERNALS, GHOSTS

OK = ["v_ok(pre)"]
SAME = [("same", "v_same(pre, post)"), ("grown", "f_grown(pre, post)")]
KEPT = [("ok", "v_ok(post) && f_grown(pre, post)")]
SENDING = ("sending", "pre.m_sending_key ==> post.m_virtual_keys_down == pre.m_virtual_keys_down && post.m_sending_key")
INV = [("ok", "v_ok({s}) && f_grown(pre, {s})")]

SERVER = dict(
    id="C07",
    tus=SERVER_TUS,
    include=["feed.rs", "virtual.rs"],
    safety=False,
    broadcast=["virtual_lemmas"],
    ignore=IGNORE,
    externals={**FEED_EXTERNALS,
               # only a keyboard key completes the exit sequence (C03)
               "MultiStage::should_exit": dict(ret="(stage_exits({this}.m_stage) && f_keyboard({this}.g_fed.last().key))"),
               "IClientPort::send_virtual_key_state": dict(effect=[
                   "{this}.g_reports = {this}.g_reports.push(({a0}, {a1} as u16));"])},
    ghost_fields={"ServerState": GHOSTS["ServerState"] + [("g_reports", "Seq<(u16, u16)>")]},
    contracts={
        "ServerState::send_key_sequence": dict(),
        "ServerState::release_all_keys": dict(),
        "ServerState::schedule_flush": dict(),
        "ServerState::schedule_timeout": dict(),
        "ServerState::cancel_timeout": dict(ensures=[("cancelled", "post.m_timeout_start_at is None")]),
        "ServerState::set_active_contexts": dict(requires=OK, ensures=KEPT + [SENDING]),
        "ServerState::evaluate_device_filters": dict(
            requires=OK, ensures=KEPT + [SENDING, ("no-devices", "pre.m_device_descs.len() == 0 ==> post == pre")]),
        "ServerState::set_virtual_key_state": dict(
            top=True, requires=OK + ["f_virtual(key)", "state <= 2"],
            ensures=KEPT + [
                ("nothing", "pre.m_virtual_keys_down.contains(key) == v_wanted(pre.m_virtual_keys_down.contains(key), state) ==> post == pre"),
                ("changed", "pre.m_virtual_keys_down.contains(key) != v_wanted(pre.m_virtual_keys_down.contains(key), state) && post.g_exit == pre.g_exit ==> v_changed(pre, post, key, v_wanted(pre.m_virtual_keys_down.contains(key), state))"),
            ]),
        "ServerState::toggle_virtual_key": dict(
            top=True, requires=OK + ["f_virtual(key)"],
            ensures=KEPT + [("changed", "post.g_exit == pre.g_exit ==> v_changed(pre, post, key, !pre.m_virtual_keys_down.contains(key))")]),
        "ServerState::reset_configuration": dict(
            invs=[("told", "{w:g_reports}v_left({c}, {i}, {s}.g_reports)"),
                  ("rest", "v_base({s}) && v_last({s}) && f_grown(pre, {s}) && (pre.m_sending_key ==> {s}.m_sending_key) && {s}.m_device_descs == pre.m_device_descs")],
            requires=OK, ensures=KEPT + [("cleared", "pre.m_sending_key || pre.m_device_descs.len() == 0 ==> post.m_virtual_keys_down.len() == 0")]),
        "ServerState::translate_input": dict(
            top=True, requires=["v_base(pre)", "v_agrees(pre.m_virtual_keys_down, input)", "f_keyboard(input.key) ==> v_last(pre) && v_known(pre)"],
            ensures=SAME + [
                ("exit", "post.g_exit != pre.g_exit ==> f_keyboard(input.key) && v_ok(post)"),
                ("last", "post.g_exit == pre.g_exit && (v_last(pre) || input.key != 0xF001 && !f_repeat(pre, input) && !f_answers(pre, input)) ==> v_last(post)"),
                ("repeat", "f_repeat(pre, input) ==> post == pre"),
                ("info", "!f_repeat(pre, input) && f_answers(pre, input) ==> f_same(pre, post)"),
                ("noinfo", "post.g_exit == pre.g_exit && !f_answers(pre, input) && !(f_wheel(input.key) && input.state == 0) ==> post.g_infos == pre.g_infos && post.m_next_key_info_requested == pre.m_next_key_info_requested"),
                ("fed", "post.g_exit == pre.g_exit && !f_repeat(pre, input) && !f_answers(pre, input) ==> f_fed(pre, post, input, device_index)"),
                ("last-kept", "input.key == 0xF001 && post.g_exit == pre.g_exit && pre.m_timeout_start_at is None ==> post.m_last_key_event == pre.m_last_key_event"),
            ]),
        "ServerState::flush_send_buffer": dict(requires=OK, ensures=KEPT + [SENDING], invs=INV),
        "ServerState::on_configuration_message": dict(requires=OK, ensures=KEPT),
        "ServerState::on_active_contexts_message": dict(requires=OK, ensures=KEPT),
        "ServerState::on_set_virtual_key_state_message": dict(requires=OK + ["state <= 2"], ensures=KEPT),
        "ServerState::on_inject_input_message": dict(requires=OK, ensures=KEPT, invs=INV),
        "ServerState::on_inject_output_message": dict(requires=OK, ensures=KEPT),
        "ServerState::set_device_descs": dict(requires=OK, ensures=KEPT),
    },
)

# the client's side: what control clients are told
CONTROL = dict(
    id="C07b",
    tus=["client/ControlPort.cpp"],
    include=["control.rs"],
    drop_fields={"ControlPort": ["m_host", "m_controls"]},
    externals={
        # notifies the control clients waiting for this key
        "ControlPort::send_virtual_key_toggle_notification": dict(),
        "get_key_by_name": dict(ret="key_named({a0})"),
        "Host::shutdown": dict(),
    },
    assumptions=["ControlPort::send_virtual_key_toggle_notification leaves the recorded state alone (it iterates a std::map)"],
    contracts={
        "ControlPort::on_virtual_key_state_changed": dict(
            top=True, ensures=[("recorded", "forall|k: u16| f_virtual(k) ==> #[trigger] control_down(post, k) == (if k == key { state == 1 } else { control_down(pre, k) })")]),
        "ControlPort::get_virtual_key_state": dict(
            top=True, ensures=[("told", "ret == (if f_virtual(key) { if control_down(pre, key) { 1u16 } else { 0u16 } } else { 2u16 })")]),
        "ControlPort::get_virtual_key": dict(
            top=True, ensures=[("key", "ret == control_key(pre.m_virtual_key_aliases, name)")]),
        "ControlPort::set_virtual_key_aliases": dict(
            ensures=[("kept", "post.m_virtual_keys_down == pre.m_virtual_keys_down"), ("set", "post.m_virtual_key_aliases == aliases")]),
    },
)

UNITS = [SERVER, CONTROL]
