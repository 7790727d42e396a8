"""Pieces shared by the checks about the mapping stage."""

TRIGGER = "Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16"

# helper functions of the stage which only need a frame in most checks
STAGE_FRAMES = [
    "Stage::update_output", "Stage::release_triggered", "Stage::forward_from_sequence",
    "Stage::apply_output", "Stage::finish_sequence", "Stage::find_output",
    "Stage::fallthrough_context", "Stage::update_active_contexts",
    "Stage::continue_output_on_release", "Stage::on_context_active_event",
    "Stage::match_input", "Stage::clean_up_history", "Stage::apply_input",
    "Stage::cancel_inactive_output_on_release", "MatchKeySequence::operator()",
]

TRIGGER_SPEC = """
pub open spec fn m_trigger_event(t: %s) -> KeyEvent;
""" % TRIGGER


def frames(names=STAGE_FRAMES, **override):
    d = {n: dict(ensures=[]) for n in names}
    return d
