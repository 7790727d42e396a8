INVS = [("bytes", "{x:Serializer}.buffer == put_%s({x0}.buffer, {c}, {i})" % k)
        for k in ("events", "inputs", "outputs", "commands", "contexts", "grabs", "strings", "indices")]


def lists(name, kind, var):
    return dict(ensures=[("bytes", f"post_s.buffer == put_{kind}(put::<u32>(pre_s.buffer, len32({var}.len())), {var}, {var}.len() as int)")],
                invs=INVS)


BOUND = ("bound", "{v:u32} <= {y:u32}")
MOVED = ("moved", "d_moved({x0}, {x:Deserializer})")


def LIST(kind, rt):
    return (kind, "get_%s_n({x0}.buffer, {x0}.it, {v:u32} as int) is Some ==> ({y:%s}, {x:Deserializer}.it) == get_%s_n({x0}.buffer, {x0}.it, {v:u32} as int)->Some_0" % (kind, rt, kind))


def reads(kind, invs=(), **kw):
    return dict(**kw, requires=["d_ok(pre_d)"],
                ensures=[("value", f"{kind}(pre_d.buffer, pre_d.it) is Some ==> (ret, post_d.it) == {kind}(pre_d.buffer, pre_d.it)->Some_0"),
                         ("moved", "d_moved(pre_d, post_d)")],
                invs=list(invs))


TYPES = """
#[verifier::ext_equal]
pub enum Msg {
  Grabs(Seq<GrabDeviceFilter>), Mappings(Option<Seq<Option<Seq<Stage_Context>>>>), Directives(Seq<Seq<i8>>), Active(Seq<i32>),
  VirtualKey(u16, u16), Validate, NextKey, Input(Seq<KeyEvent>), Output(Seq<KeyEvent>), Action(i32), KeyInfo(u16, Seq<i8>, Seq<i8>),
}
"""

def sends(body):
    return dict(top=True, ensures=[("sent", f"ret ==> post.m_connection.g_sent == framed(pre.m_connection.g_sent, {body})")])


def on(message):
    return dict(effect=["{this}.g_trace = {this}.g_trace.push(Msg::" + message + ");"])


def reads_all(who):
    total = "pre.m_connection.m_deserializer.buffer.add(post.m_connection.g_chunk)"
    return dict(top=True, hide=["get_string"] if who == "client" else ["get_stages", "get_grabs", "get_strings", "get_indices", "get_sequence"], requires=[f"pre.m_connection.m_deserializer.buffer.len() < 0x2000_0000_0000_0000"],
                ensures=[("accepted", f"post.m_connection.g_ok && {who}_all({total}, 0) is Some ==> ret"),
                         ("handled", f"ret && {who}_all({total}, 0) is Some ==> post.g_trace == pre.g_trace.add({who}_all({total}, 0)->Some_0.0)"),
                         ("kept", f"ret && {who}_all({total}, 0) is Some ==> post.m_connection.m_deserializer.buffer == {total}.subrange({who}_all({total}, 0)->Some_0.1, {total}.len() as int)")],
                invs=[("progress", who + "_progress({s}.m_connection.m_deserializer.buffer, {e}.g_trace, {s}.m_connection.m_deserializer.it, {s}.g_trace)"),
                      ("position", "d_ok({s}.m_connection.m_deserializer)"),
                      ("chunk", "{s}.m_connection.g_chunk == {e}.m_connection.g_chunk && {s}.m_connection.g_ok == {e}.m_connection.g_ok"),
                      ("buffer", "{s}.m_connection.m_deserializer.buffer == {e}.m_connection.m_deserializer.buffer")])


HANDLER = {
    "on_grab_device_filters_message": on("Grabs({a0})"), "on_configuration_message": on("Mappings({a0})"),
    "on_directives_message": on("Directives({a0})"), "on_active_contexts_message": on("Active({a0})"),
    "on_set_virtual_key_state_message": on("VirtualKey({a0}, {a1})"), "on_validate_state_message": on("Validate"),
    "on_request_next_key_info_message": on("NextKey"), "on_inject_input_message": on("Input({a0})"),
    "on_inject_output_message": on("Output({a0})"), "on_execute_action_message": on("Action(({a0}) as i32)"),
    "on_virtual_key_state_message": on("VirtualKey({a0}, {a1})"), "on_next_key_info_message": on("KeyInfo({a0}, {a1}.name, {a1}.id)"),
}

UNIT = dict(
    types=TYPES,
    id="C11",
    tus=["client/ServerPort.cpp", "server/ClientPort.cpp"],
    opaque={"Stage": "Seq<Stage_Context>", "MultiStage": "Seq<Option<Seq<Stage_Context>>>"},
    iter_fields={("Deserializer", "it"): "buffer"},
    ghost_fields={"Connection": [("g_sent", "Seq<i8>"), ("g_received", "Seq<i8>"), ("g_chunk", "Seq<i8>"), ("g_ok", "bool")],
                  "ClientPort": [("g_trace", "Seq<Msg>")], "ServerPort": [("g_trace", "Seq<Msg>")]},
    externals={
        **{f"{port}::MessageHandler::{k}": v for k, v in HANDLER.items() for port in ("ServerPort", "IClientPort", "ClientPort")},
        "Connection::send": dict(bytes=(0, 1), effect=["{this}.g_sent = if {ret} {{ {this}.g_sent.add({bytes}) }} else {{ havoc() }};"]),
        "Connection::wait_for_message": dict(effect=["{this}.g_ok = {ret};"]),
        "std::chrono::duration<double>::zero": dict(ret="arbitrary()", proof=True),
        "Connection::recv": dict(effect=["{this}.g_ok = {ret};", "{this}.g_chunk = havoc();", "{this}.g_chunk = bounded({this}.g_chunk);", "{this}.g_received = {this}.g_received.add({this}.g_chunk);", "{a0} = {a0}.add({this}.g_chunk);"]),
"is_regex": dict(ret="regex_text({a0})"), "parse_regex": dict(ret="regex_of({a0})")},
    include=["wire.rs"],
    broadcast=["wire_lemmas"],
    safety=True,
    safety_off=["unsigned-wrap"],
    contracts={
        "write_key_sequence": dict(
            ensures=[("bytes", "post_s.buffer == put_sequence(pre_s.buffer, sequence)")],
            invs=INVS),
        "write_filter": dict(ensures=[("bytes", "post_s.buffer == put_filter(pre_s.buffer, filter)")]),
        "write_contexts": lists("write_contexts", "contexts", "contexts"),
        "write_grab_device_filters": lists("write_grab_device_filters", "grabs", "device_filters"),
        "write_directives": lists("write_directives", "strings", "directives"),
        "write_active_contexts": lists("write_active_contexts", "indices", "indices"),
        "Deserializer::read_string": dict(requires=["d_ok(pre)"],
            ensures=[("value", "get_string(pre.buffer, pre.it) is Some ==> (ret, post.it) == get_string(pre.buffer, pre.it)->Some_0"),
                     ("moved", "d_moved(pre, post)")]),
        "ServerPort::send_config": sends("put_all_strings(put_all_contexts(put_all_grabs(kind(1), config.grab_device_filters), config.contexts), config.server_directives)"),
        "ServerPort::send_active_contexts": sends("put_all_indices(kind(2), indices)"),
        "ServerPort::send_validate_state": sends("kind(3)"),
        "ServerPort::send_set_virtual_key_state": sends("put(put(kind(7), key), state)"),
        "ServerPort::send_request_next_key_info": sends("kind(11)"),
        "ServerPort::send_inject_input": sends("put_sequence(kind(12), sequence)"),
        "ServerPort::send_inject_output": sends("put_sequence(kind(13), sequence)"),
        "ClientPort::send_triggered_action": sends("put(kind(4), wrap_u32(action as int) as u32)"),
        "ClientPort::send_virtual_key_state": sends("put(put(kind(5), key), state)"),
        "ClientPort::send_next_key_info": sends("put_string(put_string(put(kind(11), key), device_desc.name), device_desc.id)"),
        "ServerPort::read_messages": reads_all("client"),
        "ClientPort::read_messages": reads_all("server"),
        "read_key_sequence": reads("get_sequence", broadcast=["wire_lemmas", "lemma_last"], invs=[LIST("events", "Seq<KeyEvent>"), MOVED, BOUND]),
        "read_filter": reads("get_filter"),
        "read_grab_device_filters": reads("get_grabs", invs=[LIST("grabs", "Seq<GrabDeviceFilter>"), MOVED, BOUND]),
        "read_directives": reads("get_strings", invs=[LIST("strings", "Seq<Seq<i8>>"), MOVED, BOUND]),
        "read_active_contexts": dict(requires=["d_ok(pre_d)"],
            ensures=[("value", "get_indices(pre_d.buffer, pre_d.it) is Some ==> (post_indices, post_d.it) == get_indices(pre_d.buffer, pre_d.it)->Some_0"),
                     ("moved", "d_moved(pre_d, post_d)")],
            invs=[LIST("indices", "Seq<i32>"), MOVED, BOUND]),
        "read_stages": dict(broadcast=["wire_lemmas", "wire_top"], split=1, requires=["d_ok(pre_d)"],
            ensures=[("value", "get_stages(pre_d.buffer, pre_d.it) is Some ==> (ret, post_d.it) == get_stages(pre_d.buffer, pre_d.it)->Some_0"),
                     ("moved", "d_moved(pre_d, post_d)")],
            invs=[MOVED, BOUND,
                  ("contexts", "read_so_far(get_stages_n({x0}.buffer, {x0}.it, {v:u32} as int), {y:Seq<Option<Seq<Stage_Context>>>}, {z:Seq<Stage_Context>}, {x:Deserializer}.it)"),
                  ] + [i for k in ("inputs", "outputs", "commands") for i in (
                      (k, "get_%s_n({x0}.buffer, {x0}.it, {i}) is Some ==> ({c}.subrange(0, {i}), {x:Deserializer}.it) == get_%s_n({x0}.buffer, {x0}.it, {i})->Some_0" % (k, k)),
                      (k + "-frame", "only_%s({c}, {x0}, {x:Seq<Stage_Context>})" % k))]),
    },
)
