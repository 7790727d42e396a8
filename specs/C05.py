from stage_common import frames

KEPT = ("kept", "post.m_contexts == pre.m_contexts")
UPDATE = [("stages", "{s}.m_stages.len() == pre.m_stages.len()"),
          ("first", "{v:bool} == ({i} == 0)"),
          ("output", "{s}.m_output_buffer == chain(pre.m_stages, event, device_index, {i})"),
          ("rest", "forall|k: int| {i} <= k < pre.m_stages.len() ==> #[trigger] {s}.m_stages[k] == pre.m_stages[k]"),
          ("done", "forall|k: int| 0 <= k < {i} ==> #[trigger] {s}.m_stages[k] == Some(chained(pre.m_stages, event, device_index, k))"),
          ("others", "forall|k: int| k != {x:int} ==> #[trigger] {s}.m_stages[k] == {e}.m_stages[k]"),
          ("here", "{s}.m_stages[{x:int}] is Some"),
          ("fed", "Fed { s: {s}.m_stages[{x:int}].unwrap(), out: {s}.m_output_buffer } == fed(Fed { s: {e}.m_stages[{x:int}].unwrap(), out: {e}.m_output_buffer }, {s}.m_input_buffer, {i}, device_index, {x:int} == 0)"),
          ]
ALL = "{w:m_stages}{w:m_indices_buffer}"
FEED = "{w:m_stages}{nw:m_indices_buffer}"
OWN = "{w:m_indices_buffer}{nw:m_stages}"
CONTEXTS = [("stages", "{w:m_stages}{s}.m_stages.len() == pre.m_stages.len()"),
            ("offset", ALL + "{v:i32} == offset(pre.m_stages, {i})"),
            ("output", ALL + "{s}.m_output_buffer =~= context_chain(pre.m_stages, indices, {i})"),
            ("rest", ALL + "forall|k: int| {i} <= k < pre.m_stages.len() ==> #[trigger] {s}.m_stages[k] == pre.m_stages[k]"),
            ("done", ALL + "forall|k: int| 0 <= k < {i} ==> #[trigger] {s}.m_stages[k] == Some(context_fed(pre.m_stages, indices, k, context_chain(pre.m_stages, indices, k)).s)"),
            ("others", FEED + "forall|k: int| k != {x:int} ==> #[trigger] {s}.m_stages[k] == {e}.m_stages[k]"),
            ("here", FEED + "{s}.m_stages[{x:int}] is Some && {s}.m_stages[{x:int}].unwrap().m_contexts == {e}.m_stages[{x:int}].unwrap().m_contexts"),
            ("fed", FEED + "Fed { s: {s}.m_stages[{x:int}].unwrap(), out: {s}.m_output_buffer } == fed(Fed { s: {e}.m_stages[{x:int}].unwrap(), out: {e}.m_output_buffer }, {s}.m_context_active_buffer, {i}, -1i32, false)"),
            ("own", OWN + "{s}.m_indices_buffer =~= own(indices, {i}, offset(pre.m_stages, {x:int}), offset(pre.m_stages, {x:int} + 1))"),
            ("active", ALL + "{s}.m_active_client_contexts == indices"),
            ]

# the stages are chained
UNIT = dict(
    id="C05",
    tus=["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp", "runtime/MultiStage.cpp"],
    include=["chain.rs"],
    safety=False,
    contracts={
        **frames(),
        "Stage::advance_exit_sequence": dict(),
        "Stage::update": dict(
            assumed=[("the same state and input lead to the same state and output",
                      "post == st_next(pre, event, device_index) && ret == st_out(pre, event, device_index)")],
            ensures=[KEPT]),
        "Stage::reuse_buffer": dict(ensures=[("emptied", "post == emptied(pre)")]),
        "MultiStage::update": dict(
            top=True,
            requires=["present(pre)"],
            ensures=[("output", "ret == chain(pre.m_stages, event, device_index, pre.m_stages.len() as int)"),
                     ("stages", "post.m_stages.len() == pre.m_stages.len()"),
                     ("fed", "forall|k: int| 0 <= k < pre.m_stages.len() ==> #[trigger] post.m_stages[k] == Some(chained(pre.m_stages, event, device_index, k))")],
            invs=UPDATE),
        "MultiStage::reuse_buffer": dict(
            ensures=[("emptied", "post == MultiStage { m_output_buffer: Seq::empty(), ..pre }")]),
        "Stage::set_active_client_contexts": dict(
            assumed=[("the same state and contexts lead to the same state and output",
                      "post == ctx_next(pre, indices) && ret == ctx_out(pre, indices)")],
            ensures=[KEPT]),
        "MultiStage::set_active_client_contexts": dict(
            top=True,
            broadcast=["lemma_offset"],
            requires=["present(pre)"],
            ensures=[("output", "ret == context_chain(pre.m_stages, indices, pre.m_stages.len() as int)"),
                     ("stages", "post.m_stages.len() == pre.m_stages.len()"),
                     ("active", "post.m_active_client_contexts == indices"),
                     ("fed", "forall|k: int| 0 <= k < pre.m_stages.len() ==> #[trigger] post.m_stages[k] == Some(context_fed(pre.m_stages, indices, k, context_chain(pre.m_stages, indices, k)).s)")],
            invs=CONTEXTS),
    },
)
