SENT = dict(top=True, ensures=[])


def sent(field):
    return dict(
        top=True,
        ensures=[("sent", f"ret ==> post.{field}.len() == pre.{field}.len() + 1 && post.{field}.drop_last() == pre.{field} && injected(post.{field}.last(), string_)"),
                 ("nothing", f"!ret ==> post == pre")])


UNIT = dict(
    id="C10",
    tus=["client/ClientState.cpp"],
    include=["inject.rs"],
    safety=False,
    opaque={"std::filesystem::path": "Seq<i8>", "ParseKeySequence": "Opaque"},
    ignore=["verbose", "error", "message", "notify"],
    externals={
        "ParseKeySequence::operator()": dict(throws=True, ret="parsed({a0})"),
        "ServerPort::send_inject_input": dict(effect=["{this}.g_input = {this}.g_input.push({a0});"]),
        "ServerPort::send_inject_output": dict(effect=["{this}.g_output = {this}.g_output.push({a0});"]),
    },
    ghost_fields={"ClientState": [("g_input", "Seq<Seq<KeyEvent>>"), ("g_output", "Seq<Seq<KeyEvent>>")]},
    contracts={
        "replace_logical_keys": dict(
            ensures=[("sided", "sided(ret, sequence, sequence.len() as int)")],
            invs=[("sided", "sided({v:Seq<KeyEvent>}, sequence, {i})")]),
        "ensure_all_keys_up": dict(
            broadcast=["inject_lemmas"],
            ensures=[("completed", "completed(ret, sequence)")],
            invs=[("tracks", "tracks({v:Seq<u16>}, sequence, {i})"),
                  ("releasing", "releasing({v:Seq<KeyEvent>}, sequence, {c}, {i})")]),
        "ClientState::on_inject_input_message": sent("g_input"),
        "ClientState::on_inject_output_message": sent("g_output"),
    },
)
