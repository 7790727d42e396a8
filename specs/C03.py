from stage_common import frames
from server_common import EXTERNALS, IGNORE, SERVER_TUS

# candidates; the ones which do not hold for a loop are dropped
MS = [
    ("ok", "stages_ok({s}) && {s}.m_stages.len() == pre.m_stages.len()"),
    ("first", "{v:bool} == ({i} == 0)"),
    ("buf", "{i} == 0 ==> {s}.m_output_buffer == seq![event]"),
    ("nobuf", "{i} == 0 ==> {s}.m_output_buffer.len() == 0"),
    ("start", "{i} == 0 ==> epos({s}) == epos(pre)"),
    ("done", "{i} > 0 ==> epos({s}) == exit_step(epos(pre), event)"),
    ("kept", "epos({s}) == epos(pre)"),
    ("inner-start", "{x:int} == 0 && {i} == 0 ==> epos({s}) == epos({e})"),
    ("inner-done", "{x:int} == 0 && {i} > 0 ==> epos({s}) == exit_step(epos({e}), event)"),
    ("inner-rest", "{x:int} > 0 ==> epos({s}) == epos({e})"),
]
MS2 = [x for x in MS if "event" not in x[1]]
STEP = ("step", "post.m_exit_sequence_position == exit_step(pre.m_exit_sequence_position as int, event)")
QUIET = [("quiet", "quiet(pre, post)")]
QINV = [("quiet", "quiet(pre, {s})")]
OK = ["srv_ok(pre)"]

UNIT = dict(
    id="C03",
    tus=SERVER_TUS,
    include=["exit.rs", "exit_server.rs"],
    safety=False,
    ignore=IGNORE,
    externals={**EXTERNALS, "ServerState::on_exit_requested": dict(effect=["{this}.g_exit = true;"])},
    ghost_fields={"ServerState": [("g_exit", "bool")]},
    contracts={
        **frames(),
        "Stage::advance_exit_sequence": dict(requires=["pre.m_exit_sequence_position <= 3"], ensures=[STEP]),
        "Stage::should_exit": dict(ensures=[("exit", "ret == (pre.m_exit_sequence_position == 3)")]),
        "Stage::update": dict(requires=["pre.m_exit_sequence_position <= 3"], ensures=[STEP]),
        "Stage::set_active_client_contexts": dict(),
        "Stage::evaluate_device_filters": dict(),
        "MultiStage::should_exit": dict(ensures=[("exit", "ret == (epos(pre) == 3)")]),
        "MultiStage::update": dict(
            requires=["stages_ok(pre)", "pre.m_output_buffer.len() == 0"],
            ensures=[("ok", "stages_ok(post) && post.m_stages.len() == pre.m_stages.len()"),
                     ("step", "epos(post) == (if pre.m_stages.len() > 0 { exit_step(epos(pre), event) } else { 0 })"),
                     ("empty", "post.m_output_buffer.len() == 0")],
            invs=MS),
        "MultiStage::set_active_client_contexts": dict(
            requires=["stages_ok(pre)", "pre.m_output_buffer.len() == 0"],
            ensures=[("ok", "stages_ok(post) && post.m_stages.len() == pre.m_stages.len()"),
                     ("same", "epos(post) == epos(pre)")],
            invs=MS2),
        "MultiStage::evaluate_device_filters": dict(
            requires=["stages_ok(pre)"],
            ensures=[("ok", "stages_ok(post) && post.m_stages.len() == pre.m_stages.len()"),
                     ("same", "epos(post) == epos(pre)")],
            invs=MS2),
        "ServerState::release_all_keys": dict(),
        "ServerState::send_key_sequence": dict(),
        "ServerState::schedule_flush": dict(),
        "ServerState::schedule_timeout": dict(),
        "ServerState::cancel_timeout": dict(),
        "ServerState::set_active_contexts": dict(requires=OK, ensures=QUIET, invs=QINV),
        "ServerState::evaluate_device_filters": dict(requires=OK, ensures=QUIET, invs=QINV),
        "ServerState::flush_send_buffer": dict(requires=OK, ensures=QUIET, invs=QINV),
        "ServerState::set_virtual_key_state": dict(
            requires=OK + ["!is_keyboard(key)"], ensures=QUIET, invs=QINV),
        "ServerState::reset_configuration": dict(
            requires=OK + ["stage is Some ==> fresh_config(stage.unwrap())"],
            ensures=[("replaced", "srv_ok(post) && spos(post) == 0 && (pre.g_exit ==> post.g_exit)"),
                     ("count", "nstages(post) == (if stage is Some { stage.unwrap().m_stages.len() } else { 0 })"),
                     ("noexit", "spos(pre) < 3 ==> post.g_exit == pre.g_exit")]),
        "ServerState::translate_input": dict(
            top=True,
            requires=OK,
            ensures=[("ok", "srv_ok(post)"),
                     ("keeps", "pre.g_exit ==> post.g_exit"),
                     ("swallowed", "spos(pre) < 3 && swallowed(pre, input) ==> spos(post) == spos(pre) && nstages(post) == nstages(pre) && post.g_exit == pre.g_exit"),
                     ("no-config", "nstages(pre) == 0 ==> nstages(post) == 0 && post.g_exit == pre.g_exit"),
                     ("progress", "spos(pre) < 3 && nstages(pre) > 0 && !swallowed(pre, input) && exit_step(spos(pre), input) < 3 ==> spos(post) == exit_step(spos(pre), input) && nstages(post) == nstages(pre) && post.g_exit == pre.g_exit"),
                     ("exit", "spos(pre) < 3 && nstages(pre) > 0 && !swallowed(pre, input) && exit_step(spos(pre), input) == 3 ==> post.g_exit && nstages(post) == 0"),
                     ]),
        "ServerState::on_configuration_message": dict(
            requires=OK + ["stage is Some ==> fresh_config(stage.unwrap())", "spos(pre) < 3"],
            ensures=[("quiet", "srv_ok(post) && post.g_exit == pre.g_exit && (stage is Some ==> spos(post) == 0)")]),
        "ServerState::on_active_contexts_message": dict(requires=OK, ensures=QUIET),
        "ServerState::on_set_virtual_key_state_message": dict(requires=OK, ensures=QUIET),
        "ServerState::on_validate_state_message": dict(requires=OK, ensures=QUIET),
        "ServerState::set_device_descs": dict(requires=OK, ensures=QUIET),
    },
)
