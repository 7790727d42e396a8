from stage_common import frames

OK = ["ctx_ok(pre)"]
KEEP = [("contexts", "ctx_ok(post)")]
ACT = ("active", "up_to_date(post)")

UPS = ["ups_ok(pre.m_sequence)"]
UPSE = [("ups", "ups_ok(post.m_sequence)")]
UPSI = [("ups", "ups_ok({s}.m_sequence)")]
VALID = ["event.state <= 1"]

IN_RANGE = "config_ok(%s.m_contexts) && 0 <= context_index < %s.m_contexts.len() ==> "
FALL = dict(
    ensures=[("shared", IN_RANGE % ("pre", "pre") + "ret == fall(pre.m_contexts, context_index as int)")],
    invs=[("shared", IN_RANGE % ("{s}", "{s}") + "0 <= {v:i32} < {s}.m_contexts.len() && fall({s}.m_contexts, {v:i32} as int) == fall({s}.m_contexts, context_index as int)")])

ACTIVE = dict(
    id="C08active",
    tus=["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp"],
    include=["contexts.rs"],
    safety=False,
    broadcast=["context_lemmas"],
    ghost_fields={"Stage": [("g_tog", "Seq<(i32, bool)>")]},
    contracts={
        **frames(),
        "Stage::match_context_modifier_filter": dict(
            ensures=[("modifiers", "ret == mod_ok(pre.m_sequence, modifiers, modifiers.len() as int)"), ("pure", "post == pre")],
            invs=[("modifiers", "mod_ok({s}.m_sequence, modifiers, {i})")],
            entry=["reveal(mod_ok);"]),
        "Stage::fallthrough_context": FALL,
        "Stage::on_context_active_event": dict(
            entry=["s.g_tog = s.g_tog.push((context_index, event.state == 1));"],
            ensures=[("toggled", "post.g_tog == pre.g_tog.push((context_index, event.state == 1))")]),
        "Stage::update_active_contexts": dict(
            broadcast=["lemma_fall", "lemma_active_b"],
            requires=OK,
            ensures=[ACT, *KEEP, ("toggled", "post.g_tog == pre.g_tog.add(toggled(pre.m_active_contexts, post.m_active_contexts))")],
            invs=[("active", "{w:m_active_contexts}{s}.m_active_contexts =~= active({s}.m_contexts, {s}.m_active_client_contexts, {s}.m_sequence, {i})"),
                  ("passes", "{w:g_tog}{s}.g_tog =~= pre.g_tog.add(passes({s}.m_prev_active_contexts, {s}.m_active_contexts, {i}))"),
                  ("compared", "{w:g_tog}compared({s}.m_prev_active_contexts, {s}.m_active_contexts, {i}, {v:int})"),
                  ("deactivated", "{w:g_tog}!{x:bool} ==> {s}.g_tog =~= {e}.g_tog.add(only_in({s}.m_prev_active_contexts, {s}.m_active_contexts, {i}, false))"),
                  ("activated", "{w:g_tog}{x:bool} ==> {s}.g_tog =~= {e}.g_tog.add(only_in({s}.m_active_contexts, {s}.m_prev_active_contexts, {i}, true))"),
                  ], entry=["reveal(compared);", "reveal(increasing);"]),
        "Stage::forward_from_sequence": dict(requires=UPS, ensures=UPSE, invs=UPSI),
        "Stage::finish_sequence": dict(requires=UPS, ensures=UPSE, invs=UPSI),
        "Stage::apply_input": dict(
            broadcast=["input_lemmas"], hide=["config_ok", "client_ok", "active"],
            requires=OK + ["up_to_date(pre)", *VALID],
            ensures=[ACT, *KEEP],
            invs=UPSI + [("active", "{w:m_sequence}{nw:m_output_buffer}up_to_date({s})"), ("contexts", "ctx_ok({s})")]),
        "Stage::update": dict(
            top=True,
            requires=OK + ["up_to_date(pre)", *VALID],
            ensures=[ACT, *KEEP]),
        "Stage::cancel_inactive_output_on_release": dict(ensures=[]),
        "Stage::set_active_client_contexts": dict(
            top=True,
            requires=OK + ["client_ok(pre.m_contexts, indices)"],
            ensures=[ACT, *KEEP, ("client", "post.m_active_client_contexts == indices"),
                     ("toggled", "post.g_tog == pre.g_tog.add(toggled(pre.m_active_contexts, post.m_active_contexts))")]),
    },
)

LOOKUP = dict(
    id="C08lookup",
    tus=ACTIVE["tus"],
    include=["contexts.rs", "lookup.rs"],
    safety=False,
    broadcast=["lemma_fall"],
    externals={"std::regex_search": dict(ret="regex_found({a0}, {a1})")},
    checked=["partitioned"],
    contracts={
        "MatchKeySequence::operator()": dict(
            assumed=[("the result only depends on the mapping and the sequence", "ret == mk_result(expression, sequence)")]),
        "Stage::fallthrough_context": FALL,
        "Filter::matches": dict(ensures=[("filter", "ret == filter_match(pre, text, substring)")]),
        "Stage::device_matches_filter": dict(
            requires=["device_index >= -2"],
            ensures=[("device", "ret == device_ok(context, device_index)")]),
        "Stage::evaluate_device_filters": dict(
            top=True, broadcast=["device_lemmas"],
            ensures=[("devices", "post.m_contexts.len() == pre.m_contexts.len() && forall|i: int| 0 <= i < pre.m_contexts.len() ==> evaluated(#[trigger] post.m_contexts[i], pre.m_contexts[i], device_descs)")],
            entry=["lemma_first_bit();"],
            invs=[("len", "{s}.m_contexts.len() == pre.m_contexts.len()"),
                  ("done", "forall|k: int| 0 <= k < {i} ==> evaluated(#[trigger] {s}.m_contexts[k], pre.m_contexts[k], device_descs)"),
                  ("rest", "forall|k: int| {i} <= k < {s}.m_contexts.len() ==> #[trigger] {s}.m_contexts[k] == pre.m_contexts[k]"),
                  ("others", "forall|k: int| 0 <= k < {s}.m_contexts.len() && k != {x:int} ==> #[trigger] {s}.m_contexts[k] == {e}.m_contexts[k]"),
                  ("here", "{s}.m_contexts[{x:int}] == (Stage_Context { matching_device_bits: {s}.m_contexts[{x:int}].matching_device_bits, ..{e}.m_contexts[{x:int}] })"),
                  ("bit", "nth_bit({v:int}, {i})"),
                  ("bits", "bits_ok({s}.m_contexts[{x:int}].matching_device_bits, {s}.m_contexts[{x:int}], device_descs, {i})"),
                  ]),
        "Stage::find_output": dict(
            requires=["lookup_ok(pre)", "output_index < context.outputs.len()"],
            broadcast=["lemma_fall", "lemma_command_at"],
            ensures=[("output", "pointee(ret) == output_of(pre, context, output_index)")],
            invs=[("none", "command_output({s}.m_contexts, {s}.m_active_contexts, output_index, {v:i32} + 1) == command_output({s}.m_contexts, {s}.m_active_contexts, output_index, {s}.m_active_contexts.len() as int)"), ("range", "-1 <= {v:i32} < {s}.m_active_contexts.len()")]),
        "Stage::match_input": dict(
            top=True,
            requires=["lookup_ok(pre)", "outputs_ok(pre)", "device_index >= -2"],
            broadcast=[],
            entry=["reveal(none_of);", "reveal(none_before);"],
            ensures=[("lookup", "lookup(pre, first_iteration, sequence, device_index, ret)")],
            invs=[("before", "{w:m_match}none_before(pre, first_iteration, sequence, device_index, {i})"),
                  ("here", "{w:m_match}none_of(pre, first_iteration, sequence, device_index, {x:int}, {i})")]),
        "sort_command_outputs": dict(
            ensures=[("sorted", "forall|i: int| 0 <= i < ret.len() ==> commands_sorted(#[trigger] ret[i])")],
            invs=[("sorted", "forall|k: int| 0 <= k < {i} ==> commands_sorted(#[trigger] {c}[k])")]),
        "Stage::Stage": dict(
            top=True,
            ensures=[("sorted", "forall|i: int| 0 <= i < post.m_contexts.len() ==> commands_sorted(#[trigger] post.m_contexts[i])")]),
    })

UNITS = [ACTIVE, LOOKUP]
