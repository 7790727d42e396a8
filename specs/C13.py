TXT = dict(container=("txt", "Seq<i8>"))
IN = ["within(pre_it, end, txt)"]
ADVANCES = [("advances", "pre_it <= post_it <= end")]
INV = [("within", "pre_it <= {v:int} <= end")]


def type_string(env, n, a, o):
    """calls the function any number of times"""
    from cxx2verus import R, Place
    fn = a[1]
    c = env.temp("typed", "Seq<(u16, i32, u16)>", "havoc()")
    env.emit(f"assume(typed_ok({c}));")
    env.loop({"k": "synth", "c": Place(c, (), None), "lo": "0", "hi": f"({c}.len() as int)", "rev": False, "fn": fn,
              "et": "(u16, i32, u16)", "parts": ["u16", "i32", "u16"], "line": env.line, "ect": None})
    return R("()", n["t"], "()")


UNIT = dict(
    id="C13",
    tus=["config/ParseKeySequence.cpp"],
    include=["expr.rs"],
    safety=True,
    broadcast=["expr_lemmas"],
    function_results={"m_get_key_by_name": ("it looks up no timeout", "{r} != 0xF001"),
                      "m_add_terminal_command": ("it returns an action key", "0xF200 <= {r} && {r} <= 0xF2FF")},
    assumptions=["expressions are shorter than 2^31 characters, the sequences they describe shorter than 2^31 events",
                 "typed text consists of keys other than none and timeout",
                 "which characters are spaces, letters or digits is left open"],
    opaque={"StringTyper": "Opaque"},
    externals={"StringTyper::type": type_string},
    contracts={
        "skip(*, *, char *)": dict(TXT, literals=[2], requires=IN, ensures=[
            ("skips", "ret ==> skipped(txt, str, pre_it, post_it) && post_it <= end"), ("stays", "!ret ==> post_it == pre_it")],
            invs=[("both", "{y:int} - pre_it == {z:int} && 0 <= {z:int} <= str.len() && {y:int} <= end"),
                  ("same", "forall|i: int| pre_it <= i < {v:int} ==> #[trigger] txt[i] == str[i - pre_it]")]),
        "skip_until(*, *, char *)": dict(TXT, literals=[2], requires=IN, invs=INV, ensures=[
            *ADVANCES, ("skips", "ret && str.len() > 0 && str[0] != 0 ==> post_it > pre_it")]),
        "skip_space": dict(TXT, requires=IN, ensures=ADVANCES, invs=INV),
        "skip_ident": dict(TXT, requires=IN, ensures=[*ADVANCES, ("whether", "ret == (post_it != pre_it)")], invs=INV),
        "read_ident": dict(TXT, requires=IN, ensures=[*ADVANCES, ("text", "ret == txt.subrange(pre_it, post_it)")]),
        "try_read_number": dict(TXT, requires=IN, ensures=ADVANCES, invs=[*INV, ("number", "{v:i32} >= 0")]),
        "try_read_timeout": dict(TXT, requires=IN, ensures=ADVANCES),
        "trim_comment": dict(TXT, requires=["within(it, pre_end, txt)"], ensures=[("within", "it <= post_end <= pre_end")],
                             invs=[("within", "it <= {v:int} <= pre_end"), ("end", "{v:int} == pre_end")]),
        "trim_space": dict(TXT, requires=["within(begin, pre_end, txt)"], ensures=[("within", "begin <= post_end <= pre_end")],
                           invs=[("within", "begin <= {v:int} <= pre_end")]),
        "ParseKeySequence::flush_key_buffer": dict(
            requires=["ok(pre)"], ensures=[("sequence", "ok(post)"), ("flushed", "post.m_key_buffer.len() == 0")],
            invs=[("sequence", "seq_ok(s)"),
                  ("pressing", "!s.m_is_input ==> covered(s.m_sequence, s.m_pressed_keys, s.m_key_buffer, 0)"),
                  ("pressed", "downs(s.m_sequence, s.m_key_buffer, {i})"),
                  ("all-pressed", "downs(s.m_sequence, s.m_key_buffer, s.m_key_buffer.len() as int)"),
                  ("releasing", "!s.m_is_input ==> covered(s.m_sequence, s.m_pressed_keys, s.m_key_buffer, {i})"),
                  *[x for v in ("{v:u64} as int", "{v:i32} as int", "{v:int}") for x in (
                      ("in-range", f"0 <= {v} <= s.m_key_buffer.len()"), ("pressed", f"downs(s.m_sequence, s.m_key_buffer, {v})"),
                      ("releasing", f"!s.m_is_input ==> covered(s.m_sequence, s.m_pressed_keys, s.m_key_buffer, {v})"))]]),
        "ParseKeySequence::release_pressed_keys": dict(
            requires=["ok(pre)"], ensures=[("sequence", "ok(post)"), ("released", "post.m_pressed_keys.len() <= keep_keys_pressed")],
            invs=[("sequence", "ok(s)")]),
        "ParseKeySequence::sync_after_not_timeout": dict(
            requires=["ok(pre)", "pre.m_is_input"], ensures=[("sequence", "ok(post)")],
            entry=["assume(s.m_sequence.len() < 0x7fffffff);"],
            invs=[("sequence", "ok(s)"), ("before", "-1 <= {v:i32} <= {x:i32}"), ("after", "0 < {v:i32} <= {x:i32} + 1"),
                  ("last", "{x:i32} < pre.m_sequence.len()"), ("grows", "s.m_sequence.len() >= pre.m_sequence.len()")]),
        "ParseKeySequence::all_pressed_at_once": dict(
            ensures=[("at-once", "ret ==> at_once(pre.m_sequence)")], exit=["reveal(at_once);"],
            invs=[("no-up", "!{v:bool} ==> forall|j: int| 0 <= j < {i} ==> (#[trigger] pre.m_sequence[j]).state != 0"),
                  ("before", "forall|a: int, b: int| 0 <= a < b < {i} && (#[trigger] pre.m_sequence[a]).state == 0 ==> (#[trigger] pre.m_sequence[b]).state != 1")]),
        "ParseKeySequence::remove_all_from_end": dict(
            requires=["events_ok(pre.m_is_input, pre.m_sequence)"],
            ensures=[("events", "events_ok(post.m_is_input, post.m_sequence)"), ("ups", "ups_ok(pre.m_sequence) ==> ups_ok(post.m_sequence)"),
                     ("at-once", "at_once(pre.m_sequence) ==> at_once(post.m_sequence)")],
            invs=[("events", "events_ok(s.m_is_input, s.m_sequence)"), ("ups", "ups_ok(pre.m_sequence) ==> ups_ok(s.m_sequence)"),
                  ("at-once", "at_once(pre.m_sequence) ==> at_once(s.m_sequence)")]),
        "ParseKeySequence::check_ContextActive_usage": dict(
            requires=["events_ok(pre.m_is_input, pre.m_sequence)"],
            ensures=[("events", "exc || events_ok(post.m_is_input, post.m_sequence)"),
                     ("alone", "exc || post.m_sequence == pre.m_sequence || (pre.m_is_input && post.m_sequence.len() == 1 && post.m_sequence[0].key == 0xF002)")]),
        "ParseKeySequence::add_timeout_event": dict(
            requires=["ok(pre)"], ensures=[("sequence", "exc || ok(post)"), ("flushed", "post.m_key_buffer.len() == 0")]),
        "ParseKeySequence::add_string_typing_input": dict(
            requires=["ok(pre)", "pre.m_is_input"], ensures=[("sequence", "ok(post)")], invs=[("sequence", "ok(s)")]),
        "ParseKeySequence::add_string_typing_output": dict(
            requires=["ok(pre)", "!pre.m_is_input"], ensures=[("sequence", "ok(post)")],
            broadcast=["expr_lemmas", "typing_lemmas"],
            invs=[("sequence", "seq_ok(s)"), ("covered", "covered(s.m_sequence, s.m_pressed_keys, mods4(), 0)"),
                  *[(f"modifier-{b}", "({v:i32} & %d) == 0 ==> up_or_kept(s.m_sequence, s.m_pressed_keys, %d)" % (b, k))
                    for b, k in ((1, 0xF300), (2, 56), (4, 100), (8, 0xF301))],
                  *[(f"pressed-{b}", "({v:i32} & %d) != 0 ==> pressed_in(s.m_sequence, %d)" % (b, k))
                    for b, k in ((1, 0xF300), (2, 56), (4, 100), (8, 0xF301))]]),
        "ParseKeySequence::read_key": dict(TXT, requires=[*IN, "pre_it > 0 || pre_it < end"], ensures=[
            *ADVANCES, ("named", "exc || named(ret)")]),
        "ParseKeySequence::parse": dict(
            TXT, requires=["within(it, end, txt)", "it == 0", "ok(pre)", "pre.m_key_buffer.len() == 0", "pre.m_sequence.len() == 0",
                           "pre.m_pressed_keys.len() == 0", "pre.m_keys_pressed_before_modifier_group.len() == 0"],
            ensures=[("input", "exc || !post.m_is_input || input_expression(post.m_sequence)"),
                     ("output", "exc || post.m_is_input || output_expression(post.m_sequence)")],
            invs=[("sequence", "ok(s)"), ("within", "0 <= {v:int} <= end"), ("begin", "{x:int} <= {v:int}"),
                  ("groups", "s.m_keys_pressed_before_modifier_group.len() == {v:i32}"), ("depth", "0 <= {v:i32} <= {y:int}"),
                  ("level", "0 <= {v:i32} <= 1 + {y:int} - {x:int}"), ("closed", "{v:i32} > 0 || {y:int} > {x:int}")]),
        "ParseKeySequence::operator()": dict(
            TXT, top=True, requires=["str.len() < 0x7fffffff"],
            ensures=[("input", "exc || !is_input || input_expression(ret)"),
                     ("output", "exc || is_input || output_expression(ret)")]),
    },
)
