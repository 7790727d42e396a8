from stage_common import frames, TRIGGER
from server_common import EXTERNALS, IGNORE, SERVER_TUS

DOWN = [("triggers", "down_ok(post.m_output_down)")]
D = ["down_ok(pre.m_output_down)"]
DI = [("triggers", "down_ok({s}.m_output_down)")]
CTX = ["ctx_safe(pre)"]
CTXE = [("contexts", "ctx_safe(post)")]
CTXI = [("contexts", "ctx_safe({s})")]
TRIG = ["trig_ok(trigger)"]
AT = ["0 <= context_index < pre.m_contexts.len()"]
SAFE = ["safe(pre)"]
SAFEE = [("safe", "safe(post)")]
HIST = ["recorded(all_keys(), pre.m_history)"]
HISTE = [("history", "recorded(all_keys(), post.m_history)")]
EVENT = ["event.state <= 1"]
IN = ["event_ok(event)"]
# a device, none or any
DEVICE = ["device_index >= -2"]
REL = ["release_ok(pre.m_output_on_release)"]
RELE = [("rest-of-output", "release_ok(post.m_output_on_release)")]
RELI = [("rest-of-output", "release_ok({s}.m_output_on_release)")]
RES = ("result", "{v:i32} == 2 ==> {y:Option<Ptr<Seq<KeyEvent>>>} is Some && ptr_ok({y:Option<Ptr<Seq<KeyEvent>>>}) && trig_ok({z:%s})" % TRIGGER)

STAGE = dict(
    id="C12stage",
    tus=["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp"],
    include=["sequence.rs", "history.rs", "safe.rs"],
    safety=True,
    asserts=True,
    broadcast=["safe_lemmas"],
    contracts={
        **frames(),
        "Stage::advance_exit_sequence": dict(requires=["pre.m_exit_sequence_position <= 3"], ensures=[("position", "post.m_exit_sequence_position <= 3")]),
        "Stage::fallthrough_context": dict(
            requires=["config_ok(pre.m_contexts)"] + AT, ensures=[("in-range", "0 <= ret < pre.m_contexts.len()")],
            invs=[("in-range", "0 <= {v:i32} < {s}.m_contexts.len()")]),
        "Stage::find_output": dict(
            requires=CTX + ["context_ok(context)", "output_index >= 0 ==> output_index < context.outputs.len()"],
            ensures=[("output", "ptr_ok(ret)")],
            invs=[("in-range", "{v:i32} < {s}.m_active_contexts.len()")], entry=["reveal(sorted_commands);"]),
        "Stage::is_context_active": dict(requires=CTX),
        "Stage::cancel_inactive_output_on_release": dict(requires=CTX + REL, ensures=RELE),
        "Stage::on_context_active_event": dict(requires=CTX + D + REL + AT + EVENT, ensures=DOWN + RELE),
        "Stage::update_active_contexts": dict(
            requires=CTX + D + REL, ensures=DOWN + CTXE + RELE,
            invs=CTXI + DI + RELI + [("number", "{s}.m_active_contexts.len() <= {i}")]),
        "Stage::update_output": dict(
            requires=D + TRIG + ["event.state <= 2 || event.state == 7 || event.state == 8"],
            ensures=DOWN + [("not", "event.state == 2 ==> post.m_output_down.len() == pre.m_output_down.len()")],
            invs=DI + [("number", "{s}.m_output_down.len() == {e}.m_output_down.len()")]),
        "Stage::release_triggered": dict(requires=D, ensures=DOWN),
        "Stage::apply_output": dict(
            requires=D + TRIG + REL + ["out_ok(sequence)"],
            ensures=DOWN + RELE + [("released", "trigger_event(trigger).state != 1 ==> post.m_output_on_release == pre.m_output_on_release")],
            invs=DI + RELI + [("released", "trigger_event(trigger).state != 1 ==> {s}.m_output_on_release == pre.m_output_on_release")]),
        "find_last_non_optional": dict(
            ensures=[("found", "ret is Some <==> last_hard(sequence, sequence.len() as int) >= 0"),
                     ("last", "ret is Some ==> ret.unwrap().v == sequence[last_hard(sequence, sequence.len() as int)]")],
            invs=[("found", "{v:Option<Ptr<KeyEvent>>} is Some <==> last_hard(sequence, {i}) >= 0"),
                  ("last", "{v:Option<Ptr<KeyEvent>>} is Some ==> {v:Option<Ptr<KeyEvent>>}.unwrap().v == sequence[last_hard(sequence, {i})]")]),
        "get_trigger_event": dict(requires=TRIG, fun="trigger_event"),
        "Stage::continue_output_on_release": dict(requires=D + REL, ensures=DOWN + RELE),
        "MatchKeySequence::operator()": dict(requires=["expression.len() > 0", "sequence.len() > 0"]),
        "Stage::match_input": dict(
            requires=CTX + DEVICE + ["sequence.len() > 0"],
            ensures=[("result", "ret.0 == 2 ==> ret.1 is Some && ptr_ok(ret.1) && trig_ok(ret.2)")]),
        "Stage::forward_from_sequence": dict(requires=D, ensures=DOWN, invs=DI),
        "Stage::finish_sequence": dict(
            requires=D + ["sequence.len() <= pre.m_sequence.len()"], ensures=DOWN,
            invs=DI + [("in-range", "{v:int} <= {y:int}"), ("in-range", "{v:int} <= {s}.m_sequence.len()")]),
        "Stage::clean_up_history": dict(broadcast=["safe_lemmas", "history_lemmas"], requires=CTX + HIST, ensures=HISTE,
            invs=[("history", "recorded(all_keys(), {s}.m_history)")]),
        "Stage::apply_input": dict(
            requires=SAFE + IN + DEVICE, ensures=SAFEE, split=6,
            broadcast=["safe_lemmas", "history_lemmas", "lemma_find_last"],
            invs=CTXI + DI + RELI + [RES, ("last", "{s}.m_sequence.len() > 0 && {s}.m_sequence.last().key == event.key"),
                  ("number", "{v:Seq<KeyEvent>}.len() <= {s}.m_sequence.len()"), ("number", "{v:Seq<KeyEvent>}.len() > 0")]),
        "Stage::update": dict(top=True, requires=SAFE + IN + DEVICE, ensures=SAFEE),
        "Stage::set_active_client_contexts": dict(
            top=True, requires=SAFE + ["in_range(indices, pre.m_contexts.len())", "seq_sorted(indices, |a: i32, b: i32| a < b)"],
            ensures=SAFEE),
        "Stage::evaluate_device_filters": dict(
            top=True, requires=SAFE, ensures=SAFEE + [("contexts", "post.m_contexts.len() == pre.m_contexts.len()")],
            exit=["lemma_config_same(pre.m_contexts, s.m_contexts);"],
            invs=[("contexts", "{s}.m_contexts.len() == pre.m_contexts.len() && forall|i: int| 0 <= i < pre.m_contexts.len() ==> bits_only(pre.m_contexts[i], #[trigger] {s}.m_contexts[i])")]),
        "Stage::validate_state": dict(top=True, requires=SAFE, ensures=SAFEE),
        "Stage::reuse_buffer": dict(top=True, requires=SAFE, ensures=SAFEE),
        "Stage::get_output_keys_down": dict(top=True, requires=SAFE),
        "Stage::is_clear": dict(top=True, requires=SAFE),
    },
)

M = ["multi_safe(pre)"]
ME = [("safe", "multi_safe(post)")]
MI = [("safe", "stages_safe({s}.m_stages)"), ("sizes", "same_sizes(pre.m_stages, {s}.m_stages)"), ("order", "index_order({s}.m_active_client_contexts)")]
V = ["server_safe(pre)"]
VE = [("safe", "server_safe(post)"), ("sending", "sending(pre, post)")]
VI = [("safe", "server_safe({s})"), ("sending", "sending(pre, {s})"), ("sending", "{s}.m_sending_key"), ("position", "0 <= {v:int} <= {s}.m_send_buffer.len()")]
def there(c):
    c = dict(c, elsewhere="C12stage")
    if c.get("requires") and "event_ok(event)" in c["requires"]:
        c["requires"] = [r for r in c["requires"] if r != "event_ok(event)"]
    return c

SERVER = dict(
    id="C12server",
    tus=SERVER_TUS,
    include=["sequence.rs", "history.rs", "safe.rs", "safe_server.rs"],
    safety=True,
    asserts=True,
    broadcast=["server_lemmas"],
    safety_off=["signed-overflow"],
    ignore=IGNORE,
    externals=EXTERNALS,
    assumptions=["the keys of the events which reach a stage are those its assertion names (device, virtual, timeout, unicode)",
                 "the indices of active contexts in a message are in order"],
    contracts={
        **{n: there(c) for n, c in STAGE["contracts"].items()},
        "MultiStage::has_mouse_mappings": dict(requires=M),
        "MultiStage::has_device_filters": dict(requires=M),
        "MultiStage::is_clear": dict(requires=M),
        "MultiStage::should_exit": dict(requires=M),
        "MultiStage::get_output_keys_down": dict(requires=M),
        "MultiStage::validate_state": dict(requires=M, ensures=ME, exit=["assert(same_sizes(pre.m_stages, s.m_stages));"]),
        "MultiStage::reuse_buffer": dict(requires=M, ensures=ME),
        "MultiStage::evaluate_device_filters": dict(requires=M, ensures=ME, invs=MI),
        "MultiStage::update": dict(requires=M + DEVICE, ensures=ME, invs=MI),
        "MultiStage::set_active_client_contexts": dict(
            requires=M + ["index_order(indices)"], ensures=ME,
            broadcast=["server_lemmas", "lemma_range_empty", "lemma_range_push", "lemma_range_len"],
            invs=MI + [("offset", "{v:i32} == total(pre.m_stages, {i})"), ("number", "0 <= {v:i32} <= 0x7fffffff"),
                       ("indices", "in_range({s}.m_indices_buffer, {s}.m_stages[{x:int}]->Some_0.m_contexts.len())"),
                       ("order", "seq_sorted({s}.m_indices_buffer, |a: i32, b: i32| a < b)"),
                       ("order", "forall|k: int, j: int| 0 <= k < {s}.m_indices_buffer.len() && {i} <= j < indices.len() ==> #[trigger] {s}.m_indices_buffer[k] + {x:i32} <= #[trigger] indices[j]"),
                       ("number", "{s}.m_indices_buffer.len() <= {i}")]),
        "ServerState::release_all_keys": dict(requires=V, ensures=VE, invs=VI),
        "ServerState::send_key_sequence": dict(requires=V, ensures=VE, invs=VI),
        "ServerState::schedule_flush": dict(requires=V, ensures=VE),
        "ServerState::schedule_timeout": dict(requires=V, ensures=VE),
        "ServerState::cancel_timeout": dict(requires=V, ensures=VE),
        "ServerState::set_active_contexts": dict(requires=V + ["index_order(active_contexts)"], ensures=VE, invs=VI),
        "ServerState::evaluate_device_filters": dict(requires=V, ensures=VE),
        "ServerState::set_device_descs": dict(top=True, requires=V, ensures=VE),
        "ServerState::reset_configuration": dict(top=True, requires=V + ["stage is Some ==> multi_safe(stage->Some_0)"], ensures=VE, invs=VI),
        "ServerState::set_virtual_key_state": dict(requires=V, ensures=VE),
        "ServerState::get_device_desc": dict(),
        "ServerState::translate_input": dict(top=True, requires=V + DEVICE, ensures=VE, invs=VI),
        "ServerState::flush_send_buffer": dict(top=True, requires=V, ensures=VE, invs=VI),
        "ServerState::should_exit": dict(top=True, requires=V),
        "ServerState::on_configuration_message": dict(top=True, requires=V + ["stage is Some ==> multi_safe(stage->Some_0)"], ensures=VE),
        "ServerState::on_active_contexts_message": dict(top=True, requires=V + ["index_order(active_contexts)"], ensures=VE),
        "ServerState::on_set_virtual_key_state_message": dict(top=True, requires=V, ensures=VE),
        "ServerState::on_inject_input_message": dict(top=True, requires=V, ensures=VE, invs=VI),
        "ServerState::on_inject_output_message": dict(top=True, requires=V, ensures=VE),
    },
)
UNITS = [STAGE, SERVER]
