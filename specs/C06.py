from server_common import EXTERNALS, IGNORE, SERVER_TUS

Q = ["q_pre(pre)"]
STEP = [("delivered", "q_step(pre, post)")]
SETTLED = ("settled", "q_settled(post)")
FLUSH = [
    ("sfx", "q_grown(pre, {s}) && q_grown({e}, {s})"),
    ("virt", "{s}.g_toggled == pre.g_toggled.add(at_most(q_virtuals({s}.g_queue, q_n(pre), q_n(pre) + {i}), 9))"),
    ("vcount", "{v:i32} >= 0 && ({v:i32} <= 2147483647) && {v:i32} == q_virtuals({s}.g_queue, q_n(pre), q_n(pre) + {i}).len()"),
    ("n", "q_n({s}) == q_n(pre)"),
    ("sent", "{s}.g_sent == q_keys({s}.g_queue, q_n(pre) + {i})"),
    ("act", "{s}.g_actions == q_actions({s}.g_queue, q_n(pre) + {i})"),
    ("range", "0 <= {i} <= {s}.m_send_buffer.len()"),
    ("sending", "{s}.m_sending_key"),
    ("notimeout", "forall|k: int| q_n(pre) <= k < q_n(pre) + {i} ==> !q_timeout(#[trigger] {s}.g_queue[k].key)"),
    ("flag", "{v:bool}"),
    ("unscheduled", "{s}.m_flush_scheduled_at is None"),
    ("unfailed", "{s}.g_failed == pre.g_failed"),
]
SAME = ("same", "{s} == ServerState { m_send_buffer: {s}.m_send_buffer, ..{e} }")
APPEND = [SAME, ("buf", "{s}.m_send_buffer =~= {e}.m_send_buffer.add(key_sequence.take({i}))")]
UPS = [SAME, ("ups", "{s}.m_send_buffer =~= {e}.m_send_buffer.add(q_ups({c}).take({i}))")]
WHEEL = [SAME, ("delta", "{v:Seq<KeyEvent>}.len() == {v0}.len() && forall|k: int| 0 <= k < {i} ==> {v:Seq<KeyEvent>}[k] == q_delta({v0}, input)[k]"),
         ("rest", "forall|k: int| {i} <= k < {v0}.len() ==> {v:Seq<KeyEvent>}[k] == {v0}[k]")]
INJECT = [("step", "q_step(pre, {s})")]
STAGE = "{this}.m_stage"

UNIT = dict(
    id="C06",
    tus=SERVER_TUS,
    include=["queue.rs"],
    safety=False,
    broadcast=["lemma_q_grown", "lemma_q_add"],
    ignore=[x for x in IGNORE if x != "ServerState::on_flush_scheduled"],
    externals={
        **EXTERNALS,
        "ServerState::on_flush_scheduled": dict(effect=["{this}.g_delay = {a0};"]),
        "ServerState::on_send_key": dict(effect=[
            "{this}.g_sent = if {ret} {{ {this}.g_sent.push({a0}) }} else {{ {this}.g_sent }};",
            "{this}.g_failed = {this}.g_failed || !{ret};"]),
        "IClientPort::send_triggered_action": dict(effect=["{this}.g_actions = {this}.g_actions.push({a0} as int);"]),
        "MultiStage::update": dict(effect=[
            "{this}.m_stage = havoc();",
            "{this}.g_queue = if stage_exits({this}.m_stage) {{ {this}.g_queue }} else {{ {this}.g_queue.add(q_delta(q_strip({ret}), {a0})) }};"]),
        "MultiStage::should_exit": dict(ret="stage_exits({this}.m_stage)"),
        "MultiStage::set_active_client_contexts": dict(effect=[
            "{this}.m_stage = havoc();", "{this}.g_queue = {this}.g_queue.add({ret});"]),
        "MultiStage::get_output_keys_down": dict(effect=["{this}.g_queue = {this}.g_queue.add(q_ups({ret}));"]),
        "MultiStage::reuse_buffer": dict(effect=["{this}.m_stage = havoc();"]),
        "MultiStage::evaluate_device_filters": dict(effect=["{this}.m_stage = havoc();"]),
        "MultiStage::validate_state": dict(effect=["{this}.m_stage = havoc();"]),
        "MultiStage::has_device_filters": {},
        "MultiStage::active_client_contexts": {},
    },
    ghost_fields={"ServerState": [("g_queue", "Seq<KeyEvent>"), ("g_sent", "Seq<KeyEvent>"),
                                  ("g_actions", "Seq<int>"), ("g_toggled", "Seq<u16>"),
                                  ("g_failed", "bool"), ("g_delay", "Real")]},
    contracts={
        "ServerState::send_key_sequence": dict(
            ensures=[("queued", "post == ServerState { m_send_buffer: pre.m_send_buffer.add(key_sequence), ..pre }")],
            invs=APPEND),
        "ServerState::release_all_keys": dict(requires=Q, ensures=[("queued", "q_appends(pre, post) && post == ServerState { m_send_buffer: post.m_send_buffer, g_queue: post.g_queue, ..pre }")], invs=UPS),
        "ServerState::schedule_flush": dict(
            ensures=[("scheduled", "post.m_flush_scheduled_at is Some"),
                     ("kept", "pre.m_flush_scheduled_at is Some ==> post == pre"),
                     ("delay", "pre.m_flush_scheduled_at is None ==> post.g_delay == delay")]),
        "ServerState::schedule_timeout": dict(),
        "ServerState::cancel_timeout": dict(),
        "ServerState::set_active_contexts": dict(requires=Q, ensures=STEP + [SETTLED]),
        "ServerState::evaluate_device_filters": dict(requires=Q, ensures=STEP + [("settled", "q_settled(pre) ==> q_settled(post)")]),
        "ServerState::toggle_virtual_key": dict(
            requires=Q, entry=["s.g_toggled = s.g_toggled.push(key);"],
            ensures=[("delivered", "q_step(ServerState { g_toggled: pre.g_toggled.push(key), ..pre }, post)")]),
        "ServerState::set_virtual_key_state": dict(
            requires=Q, ensures=STEP),
        "ServerState::reset_configuration": dict(
            requires=Q, ensures=STEP + [SETTLED]),
        "ServerState::translate_input": dict(
            top=True, requires=Q, ensures=STEP + [("handled", "ret")], invs=WHEEL),
        "ServerState::flush_send_buffer": dict(
            top=True, requires=Q,
            ensures=STEP + [("flushed", "!pre.m_sending_key ==> q_flushed(pre, post, ret)"),
                            ("nested", "pre.m_sending_key ==> ret && post == pre"), SETTLED],
            invs=FLUSH),
        "ServerState::on_configuration_message": dict(requires=Q, ensures=STEP),
        "ServerState::on_active_contexts_message": dict(requires=Q, ensures=STEP + [SETTLED]),
        "ServerState::on_set_virtual_key_state_message": dict(requires=Q, ensures=STEP + [SETTLED]),
        "ServerState::on_validate_state_message": dict(requires=Q, ensures=STEP),
        "ServerState::on_inject_output_message": dict(
            requires=Q + ["!pre.m_sending_key"], entry=["s.g_queue = s.g_queue.add(sequence);"], ensures=STEP + [SETTLED]),
        "ServerState::on_inject_input_message": dict(requires=Q + ["!pre.m_sending_key"], ensures=STEP + [SETTLED], invs=INJECT),
        "ServerState::set_device_descs": dict(requires=Q, ensures=STEP),
    },
)
