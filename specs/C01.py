from stage_common import frames

KEEPS = ("settled", "forall|k: u16| settled(pre.m_output_down, k) ==> #[trigger] settled(post.m_output_down, k)")
def same(unless):
    return ("no-other", "forall|k: u16| k != %s && untriggered(pre.m_output_down, k) ==> #[trigger] untriggered(post.m_output_down, k)" % unless)
def same_inv(unless):
    l, t = same(unless)
    return (l, t.replace("post.", "{s}."))


OUT = [("output-keys", "out_ok(post)")]
SANE = [("sane", "sane(post)")]

UNIT = dict(
    id="C01",
    tus=["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp"],
    include=["sequence.rs", "stuck.rs"],
    safety=False,
    rlimit=240,
    timeout=800,
    broadcast=["stuck_lemmas"],
    ghost_fields={"Stage": [("g_in", "spec_fn(u16) -> bool"), ("g_out", "spec_fn(u16) -> bool"), ("g_cur", "Option<u16>")]},
    contracts={
        "find_last_non_optional": dict(
            ensures=[("found", "ret is Some <==> last_hard(sequence, sequence.len() as int) >= 0"),
                     ("last", "ret is Some ==> ret.unwrap().v == sequence[last_hard(sequence, sequence.len() as int)]")],
            invs=[("found", "{v:Option<Ptr<KeyEvent>>} is Some <==> last_hard(sequence, {i}) >= 0"),
                  ("last", "{v:Option<Ptr<KeyEvent>>} is Some ==> {v:Option<Ptr<KeyEvent>>}.unwrap().v == sequence[last_hard(sequence, {i})]")]),
        "get_trigger_event": dict(fun="trigger_event"),
        "Stage::update_output": dict(
            requires=["out_ok(pre)", "allowed(pre, trigger)", "event.state == 0 && event.key != k_timeout() ==> settled(pre.m_output_down, event.key)"],
            ensures=[*OUT, KEEPS, same("tkey(trigger)"),
                     ("pressed", "event.state == 1 && event.key != k_timeout() ==> settled(post.m_output_down, event.key)")],
            invs=[("ok", "out_ok({s})"), same_inv("tkey(trigger)"), ("len", "{s}.m_output_down.len() == pre.m_output_down.len()"),
                  ("same", "forall|j: int| 0 <= j < pre.m_output_down.len() ==> (#[trigger] {s}.m_output_down[j]).key == pre.m_output_down[j].key"),
                  ("keeps", "forall|k: u16| settled(pre.m_output_down, k) ==> #[trigger] settled({s}.m_output_down, k)")]),
        "Stage::release_triggered": dict(
            requires=["out_ok(pre)"],
            ensures=[*OUT, KEEPS, ("no-other", "forall|k: u16| untriggered(pre.m_output_down, k) ==> #[trigger] untriggered(post.m_output_down, k)"),
                     ("released", "key != k_context() ==> untriggered(post.m_output_down, key)"), ("timeout", "timeout_ok(pre) ==> timeout_ok(post)")],
            invs=[("rest", "forall|k: u16| k != k_timeout() && #[trigger] held({s}.g_out, {s}.m_output_buffer, k) ==> live({s}.m_output_down.subrange(0, {s}.m_output_down.len() - {i}), k)")]),
        "Stage::apply_output": dict(
            requires=["out_ok(pre)", "waiting_ok(pre)", "allowed(pre, trigger)", "well_formed(sequence)", "presses(trigger)"],
            ensures=OUT + [KEEPS, same("tkey(trigger)"), ("waiting", "waiting_ok(post)")],
            invs=[("ok", "out_ok({s})"), ("waiting", "waiting_ok({s})"), same_inv("tkey(trigger)"),
                  ("keeps", KEEPS[1].replace("post.", "{s}.")),
                  ("keeps-inner", KEEPS[1].replace("post.", "{s}.").replace("pre.", "{e}.")),
                  ("pending", "pending({s}, sequence, {i})"),
                  ("pressed", "sequence[{x:int}].state == 1 ==> some_settled({s}, {i})"),
                  ]),
        "Stage::continue_output_on_release": dict(
            requires=["sane_before(pre, event.key)", "event.state <= 1", "event.key != k_timeout() || event.state == 0",
                      "pre.g_cur == Some(event.key) || event.key == k_context()"],
            ensures=OUT + [same("event.key"), ("waiting", "waiting_ok(post)"), ("none", "no_waiting(pre, event.key) ==> post == pre"),
                           ("continue", "event.state == 0 ==> ret")]),
        "Stage::find_output": dict(
            requires=["config_ok(pre)", "context_ok(context)"],
            ensures=[("well-formed", "ret is Some ==> well_formed(ret.unwrap().v)")]),
        "Stage::fallthrough_context": dict(),
        "MatchKeySequence::operator()": dict(),
        "find_last_down_event": dict(
            requires=["no_down_timeout(sequence)"],
            ensures=[("key", "ret is Some ==> ret.unwrap().v.key != k_timeout()")],
            invs=[("key", "{v:Option<Ptr<KeyEvent>>} is Some ==> {v:Option<Ptr<KeyEvent>>}.unwrap().v.key != k_timeout()")]),
        "Stage::match_input": dict(
            requires=["out_ok(pre)", "rest_ok(pre)", "no_down_timeout(sequence)"],
            ensures=OUT + [("timeout", "timeout_ok(post)"),
                     ("output", "ret.0 == 2 ==> ret.1 is Some && well_formed(ret.1.unwrap().v)")],
            invs=[("covered", "covered({s})"), ("timeout", "timeout_ok({s})"), ]),
        "Stage::forward_from_sequence": dict(
            requires=["sane(pre)"], ensures=SANE,
            invs=[("sane", "sane({s})"), ("passed", "passed({s}.m_sequence, {i})")]),
        "Stage::finish_sequence": dict(
            requires=["sane(pre)"], ensures=SANE,
            invs=[("sane", "sane({s})"), ("passed", "passed({s}.m_sequence, {i})")]),
        "Stage::on_context_active_event": dict(
            requires=["sane_before(pre, event.key)", "event.state <= 1", "event.key == k_context()"], ensures=OUT + [("rest", "rest_ok(post)"), same("k_context()")]),
        "Stage::update_active_contexts": dict(
            requires=["sane(pre)"], ensures=OUT + [("rest", "rest_ok(post)"), same("k_context()")],
            invs=[("out", "out_ok({s})"), same_inv("k_context()"), ("rest", "rest_ok({s})")]),
        "Stage::cancel_inactive_output_on_release": dict(
            requires=["sane(pre)"], ensures=[("waiting", "waiting_ok(post)")]),
        "Stage::clean_up_history": dict(),
        "Stage::advance_exit_sequence": dict(),
        "Stage::apply_input": dict(
            broadcast=["input_lemmas"], hide=["out_ok", "well_formed"],
            requires=["sane_before(pre, event.key)", "event.state <= 1", "event.key == k_timeout() ==> event.state == 0",
                      "event.key != k_context()", "pre.g_cur == Some(event.key)", "event.state == 1 ==> (pre.g_in)(event.key)",
                      "event.key == k_timeout() ==> untriggered(pre.m_output_down, event.key)"],
            ensures=OUT + [("sequence", "tracked(post.g_in, post.m_sequence)"), ("rest", "rest_ok(post)"),
                           ("released", "event.state == 0 ==> untriggered(post.m_output_down, event.key)")],
            invs=[("sane", "sane({s})"), ("match", "{v:i32} != 2"), ("timeouts", "no_down_timeout({v:Seq<KeyEvent>})")]),
        "Stage::update": dict(
            top=True,
            requires=["rests(pre)", "event.state <= 1", "event.key == k_timeout() ==> event.state == 0",
                      "event.key != k_context()"],
            entry=["s.g_in = step_keys(s.g_in, event);", "s.g_cur = Some(event.key);"],
            exit=["s.g_out = held_set(pre.g_out, rv);", "s.g_cur = None;"],
            ensures=[("rests", "rests(post)"),
                     ("input", "post.g_in == step_keys(pre.g_in, event)"),
                     ("output", "post.g_out == held_set(pre.g_out, ret)"),
                     ("held", "forall|k: u16| k != k_timeout() && #[trigger] (post.g_out)(k) ==> explained(post, k)")]),
        "Stage::set_active_client_contexts": dict(
            top=True,
            requires=["rests(pre)"],
            exit=["s.g_out = held_set(pre.g_out, rv);"],
            ensures=[("rests", "rests(post)"),
                     ("input", "post.g_in == pre.g_in"),
                     ("output", "post.g_out == held_set(pre.g_out, ret)"),
                     ("held", "forall|k: u16| k != k_timeout() && #[trigger] (post.g_out)(k) ==> explained(post, k)")]),
        "Stage::get_output_keys_down": dict(
            top=True,
            requires=["rests(pre)"],
            ensures=[("all", "forall|k: u16| is_device(k) && #[trigger] (pre.g_out)(k) ==> ret.contains(k)")],
            broadcast=["stuck_lemmas", "lemma_live_has", "lemma_rests_live", "lemma_contains_push"],
            invs=[("all", "forall|j: int| 0 <= j < {i} && is_device((#[trigger] {s}.m_output_down[j]).key) ==> {v:Seq<u16>}.contains({s}.m_output_down[j].key)")]),
        "Stage::reuse_buffer": dict(
            top=True,
            requires=["rests(pre)"], ensures=[("rests", "rests(post)"), ("output", "post.g_out == pre.g_out && post.g_in == pre.g_in")]),
        "sort_command_outputs": dict(
            broadcast=["lemma_permutation"], hide=["well_formed"],
            requires=["forall|i: int| 0 <= i < contexts.len() ==> context_ok(#[trigger] contexts[i])"],
            ensures=[("same-outputs", "forall|i: int| 0 <= i < ret.len() ==> context_ok(#[trigger] ret[i])")],
            invs=[("same-outputs", "forall|i: int| 0 <= i < {c}.len() ==> context_ok(#[trigger] {c}[i])")]),
        "Stage::Stage": dict(
            top=True, broadcast=["lemma_tracked_empty", "lemma_once_empty", "lemma_held_empty"],
            requires=["forall|i: int| 0 <= i < contexts.len() ==> context_ok(#[trigger] contexts[i])"],
            exit=["s.g_out = no_keys();", "s.g_in = no_keys();", "s.g_cur = None;"],
            ensures=[("rests", "rests(post) && post.g_in == no_keys() && post.g_out == no_keys()")]),
    },
)
