from stage_common import frames

VALID = ["event.state <= 1", "event.key == k_timeout() ==> event.state == 0"]
STEP = ("input", "post.g_in == step_keys(pre.g_in, event)")

T = ["tracked(pre.g_in, pre.m_sequence)"]
E = [("tracked", "tracked(post.g_in, post.m_sequence)")]
I = [("tracked", "tracked({s}.g_in, {s}.m_sequence)"), ("passed", "passed({s}.m_sequence, {i})")]

# a released key is not considered pressed
SEQUENCE = dict(
    id="C02sequence",
    tus=["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp"],
    include=["sequence.rs"],
    safety=False,
    broadcast=["sequence_lemmas"],
    ghost_fields={"Stage": [("g_in", "spec_fn(u16) -> bool")]},
    contracts={
        **frames(),
        "Stage::continue_output_on_release": dict(ensures=[("continue", "event.state == 0 ==> ret")]),
        "Stage::forward_from_sequence": dict(requires=T, ensures=E, invs=I),
        "Stage::finish_sequence": dict(requires=T, ensures=E, invs=I),
        "Stage::apply_input": dict(
            requires=["tracked(and_key(pre.g_in, event.key), pre.m_sequence)", *VALID,
                      "event.state == 1 ==> (pre.g_in)(event.key)"],
            ensures=E, invs=I),
        "Stage::update": dict(
            top=True,
            requires=T + VALID,
            entry=["s.g_in = step_keys(s.g_in, event);"],
            ensures=E + [STEP, ("forgotten", "forall|i: int| 0 <= i < post.m_sequence.len() && is_down(#[trigger] post.m_sequence[i]) ==> (post.g_in)(post.m_sequence[i].key) || up_from(post.m_sequence, i, post.m_sequence[i].key)")]),
        "Stage::set_active_client_contexts": dict(top=True, requires=T, ensures=E),
        "Stage::reuse_buffer": dict(requires=T, ensures=E),
        "Stage::is_physically_pressed": dict(
            top=True,
            requires=T,
            ensures=[("held", "ret && key != k_timeout() ==> (pre.g_in)(key) || has_up(pre.m_sequence, key)")]),
        "Stage::Stage": dict(
            top=True, exit=["s.g_in = no_keys();"], ensures=[("tracked", "tracked(post.g_in, post.m_sequence) && post.g_in == no_keys()")]),
    },
)

H = ["recorded(pre.g_in, pre.m_history)", "pre.m_has_no_might_match_mapping || pre.m_history.len() == 0"]
HE = [("history", "recorded(post.g_in, post.m_history)"), ("no-history", "post.m_has_no_might_match_mapping || post.m_history.len() == 0")]

# also not in the history, which is kept for mappings that do not hold back input
HISTORY = dict(
    id="C02history",
    tus=SEQUENCE["tus"],
    include=["sequence.rs", "history.rs"],
    safety=False,
    broadcast=["history_lemmas"],
    ghost_fields=SEQUENCE["ghost_fields"],
    contracts={
        **frames(),
        "Stage::continue_output_on_release": dict(ensures=[("continue", "event.state == 0 ==> ret")]),
        "Stage::clean_up_history": dict(
            requires=H, ensures=HE,
            invs=[("history", "recorded({s}.g_in, {s}.m_history)"), ("no-history", "{s}.m_has_no_might_match_mapping || {s}.m_history.len() == 0")]),
        "Stage::apply_input": dict(
            requires=["recorded(and_key(pre.g_in, event.key), pre.m_history)", H[1], *VALID,
                      "event.state == 1 ==> (pre.g_in)(event.key)"],
            ensures=HE),
        "Stage::update": dict(
            top=True,
            requires=H + VALID,
            entry=["s.g_in = step_keys(s.g_in, event);"],
            ensures=HE + [STEP, ("forgotten", "forall|i: int| 0 <= i < post.m_history.len() && (#[trigger] post.m_history[i]).state == 1 ==> (post.g_in)(post.m_history[i].key) || up_from(post.m_history, i, post.m_history[i].key)")]),
        "Stage::set_active_client_contexts": dict(top=True, requires=H, ensures=HE),
        "Stage::reuse_buffer": dict(requires=H, ensures=HE),
        "Stage::Stage": dict(
            top=True, exit=["s.g_in = no_keys();"], ensures=[("history", "recorded(post.g_in, post.m_history) && post.m_history.len() == 0")]),
    },
)

UNITS = [SEQUENCE, HISTORY]
