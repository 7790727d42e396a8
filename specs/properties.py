"""Source of properties.jsonl and MANIFEST.json (tools/manifest.py)."""

GUARD = "none"
ENABLE = "no hooks: contracts are attached to the unchanged sources from outside"
SOURCE_COMMITS = []
NOTES = ("Every check extracts the contracted functions from /repo with clang on every run, translates them "
         "mechanically to Verus proof functions and lets Verus/Z3 discharge every obligation. When an obligation "
         "fails, a search program built from /repo looks for a concrete failing input.")

PROPERTIES = [
    dict(
        id="C01",
        title="No output key stays pressed without something that keeps it pressed",
        statement="Every key the mapping has output as pressed and not yet as released goes back to a trigger that still justifies it: an input key that is held, an input key whose release is still held back because a mapping might match, or a ContextActive mapping. So once all input and virtual keys are released and nothing is held back, only ContextActive output is pressed. The list of pressed output keys, used to release them on a configuration change, names at least all of them at any time.",
        quantifier=dict(over=["inputs", "configurations", "histories"],
                        text="all configurations whose outputs release only keys they pressed, all histories of key, wheel, virtual key, timeout and context events"),
        why_tests_cant="Stuck keys come from unusual orders of press, release, timeout and focus change under particular mappings; tests check some fixed histories, three stuck key defects were found in the tested code.",
        anchors=dict(files=["src/runtime/Stage.cpp", "src/runtime/Stage.h"],
                     mechanism=[dict(name="record of pressed output", where="Stage::update_output, release_triggered, apply_output"),
                                dict(name="held back input", where="Stage::apply_input, forward_from_sequence, finish_sequence")]),
        level_note="All obligations for all histories and configurations. Assumes that configured outputs release only what they pressed before (proved of every parsed output in C13) and that timeouts are fed as releases.",
        theorems=["Stage::update: held", "Stage::set_active_client_contexts: held", "Stage::get_output_keys_down: all"],
    ),
    dict(
        id="C02",
        title="A released input key no longer counts as pressed",
        statement="The mapping never treats a released input key as pressed: every key press it still remembers belongs to a key that is held, or the release is remembered after it because a mapping might still match. Once everything was released and nothing is held back, no modifier, chord, negation or context filter sees any key as pressed, and input is mapped like after a fresh start.",
        quantifier=dict(over=["inputs", "configurations", "histories"],
                        text="all configurations, all histories of key, wheel, virtual key, timeout and context events"),
        why_tests_cant="A remembered press only shows much later, when another mapping uses the key as modifier; tests check the remembered sequence after a few histories.",
        anchors=dict(files=["src/runtime/Stage.cpp"],
                     mechanism=[dict(name="sequence of remembered input", where="Stage::apply_input, finish_sequence, forward_from_sequence")]),
        level_note="All obligations for all histories and configurations. 'Mapped like after a fresh start' is proved for the remembered key presses only, the comparison with a new engine is part of the search for failing inputs.",
        theorems=["Stage::update: tracked/forgotten", "Stage::is_physically_pressed: held"],
    ),
    dict(
        id="C03",
        title="The exit key sequence always shuts the server down, nothing else does",
        statement="After the release of any keyboard key (or at startup), pressing left Shift, then Escape, then K makes the server drop its configuration and request its own exit, whatever the configured mappings are and however many repeats of the last pressed key and mouse, wheel, timeout, virtual key or focus events occur in between. No other history of input events, virtual key toggles, context updates or device updates makes the server request an exit. Only the key press consumed by a next-key-info request and exact repeats while output is pending are left out.",
        quantifier=dict(over=["inputs", "configurations", "histories"],
                        text="all event histories, all configurations (any number of stages, contexts, mappings), all interleavings of input with virtual key toggles, focus changes, device changes and pending timeouts"),
        why_tests_cant="The tests feed a handful of fixed sequences to one configuration; they cannot cover every configuration and every interleaving of other events.",
        anchors=dict(files=["src/runtime/Stage.cpp", "src/runtime/MultiStage.cpp", "src/server/ServerState.cpp"],
                     mechanism=[dict(name="progress in the exit sequence", where="Stage::advance_exit_sequence"),
                                dict(name="first stage decides", where="MultiStage::should_exit"),
                                dict(name="exit request", where="ServerState::translate_input")]),
        level_note="All obligations for all histories; assumes virtual key messages carry no keyboard key and that a received configuration starts with no progress.",
        theorems=["exit_step contract of Stage::update, MultiStage::update", "translate_input: exit/progress/no-config",
                  "lemma_exit_reached", "lemma_only_exit"],
    ),
    dict(
        id="C04",
        title="Every input event reaches the mapping exactly once and in order",
        statement="Every input event given to the server is passed to the mapping exactly once, in order and with its device, except an exact repeat of the last key event while output or a timeout is pending and the one key press that answers a pending next-key-info request (which is reported to the client exactly once). A wheel event is preceded by its press, an input that interrupts a pending timeout is preceded by a timeout event carrying the elapsed milliseconds saturated to 0..4095, and a timeout requested by the mapping is awaited with its duration and cancel mode. Injected input sequences hand on each press and release of a device key in order.",
        quantifier=dict(over=["inputs", "histories", "configurations"],
                        text="all input events, devices, pending timeouts and flushes, all outputs the mapping may produce"),
        why_tests_cant="Tests cover a few fixed timeout and wheel cases; the guarantee is about every combination of pending state and input.",
        anchors=dict(files=["src/server/ServerState.cpp", "src/runtime/Timeout.h"],
                     mechanism=[dict(name="translation of one input event", where="ServerState::translate_input"),
                                dict(name="injected input", where="ServerState::on_inject_input_message")]),
        level_note="All obligations for all inputs; the mapping is an arbitrary function here. No claim for the event that completes the exit sequence (see C03).",
        theorems=["translate_input: repeat/info/fed/request", "on_inject_input_message: handed-on"],
    ),
    dict(
        id="C05",
        title="Stages are chained: each maps exactly the output of the previous one",
        statement="With several stages every input is mapped by the first stage and everything a stage outputs, also because of a focus change, is mapped by the next one, completely and in order; only timeout requests, virtual keys and actions are passed on in place to the server. Timeout and virtual key events are given to every stage, before the output of the previous one, and without stages the input is passed on unchanged. On a focus change each stage is given exactly those active contexts which belong to it, counted from its first one.",
        quantifier=dict(over=["inputs", "configurations", "histories"],
                        text="any number of stages with any mappings in any state, all input events, devices and sets of active contexts"),
        why_tests_cant="Tests check two or three stages with a few mappings; dropped, doubled or reordered events between stages depend on what each stage outputs in which state.",
        anchors=dict(files=["src/runtime/MultiStage.cpp"],
                     mechanism=[dict(name="chaining", where="MultiStage::update"),
                                dict(name="distribution of active contexts", where="MultiStage::set_active_client_contexts")]),
        level_note="All obligations for any number of stages. A stage is an arbitrary function of its state and input here; assumes the caller gives back the output buffer as the server does.",
        theorems=["MultiStage::update: output/fed", "MultiStage::set_active_client_contexts: output/fed/active"],
    ),
    dict(
        id="C06",
        title="Queued output is delivered exactly once, in order, and never stranded",
        statement="Whatever the mapping outputs (with the input's wheel delta filled in and a trailing timeout request removed), plus releases on a configuration change and injected output, is delivered exactly once and in order: key events to the virtual device, action presses to the client with their index, virtual key presses as toggles (at most nine per flush), wheel presses dropped. A delay in the output stops the flush and schedules the continuation after exactly that delay, and an event the device refuses stays queued with everything behind it. After a flush, a configuration or focus change or an injection nothing stays queued unless a flush is scheduled or the device refused an event.",
        quantifier=dict(over=["inputs", "histories", "configurations", "fault_sequences"],
                        text="all output sequences, all interleavings of input, toggles, flushes, reloads and refused sends"),
        why_tests_cant="The queue is changed re-entrantly while it is flushed (a virtual key toggled by output produces more output); tests check a few such chains only.",
        anchors=dict(files=["src/server/ServerState.cpp"],
                     mechanism=[dict(name="send queue", where="ServerState::flush_send_buffer"),
                                dict(name="enqueueing", where="ServerState::translate_input, send_key_sequence, release_all_keys")]),
        level_note="All obligations for all queues and outputs; the mapping is an arbitrary function here; termination of the flush loop is not proved.",
        theorems=["flush_send_buffer: flushed/settled/delivered", "q_step contract of every queueing function"],
    ),
    dict(
        id="C07",
        title="Virtual key state, mapping and client reports never disagree",
        statement="A virtual key changes only by a press, release or toggle request: a request for the state it already has does nothing, any other records the new state, feeds exactly one matching event to the mapping and reports exactly that state to the client once. Loading a configuration clears all virtual keys and reports those pressed as released; no other event changes or reports one. A control client asking for a virtual key is told exactly the state last reported.",
        quantifier=dict(over=["inputs", "histories", "configurations"],
                        text="all histories of virtual key requests from client and output, interleaved with input, pending timeouts and reloads"),
        why_tests_cant="The state is kept in three places (server, mapping, client); agreement has to hold after every history, not the tested ones.",
        anchors=dict(files=["src/server/ServerState.cpp", "src/client/ControlPort.cpp"],
                     mechanism=[dict(name="virtual key state", where="ServerState::set_virtual_key_state"),
                                dict(name="toggle from output", where="ServerState::toggle_virtual_key"),
                                dict(name="state kept for control clients", where="ControlPort::on_virtual_key_state_changed, get_virtual_key_state")]),
        level_note="All obligations for all histories; assumes the client names virtual keys only and (from C03) that only keyboard keys complete the exit sequence.",
        theorems=["set_virtual_key_state: nothing/changed", "reset_configuration: cleared", "v_ok invariant"],
    ),
    dict(
        id="C08",
        title="Input is mapped by the first matching mapping of the active contexts",
        statement="A context is active exactly when the client reported it active, the keys of its modifier filter are held as required and, if it has a device filter, a matching device is connected; a context without own mappings stands for the following block it shares. Input is mapped by the first mapping in configuration order, among active contexts whose device filter admits the input's device, which matches (or might match while input can be held back) and has an output, where the output of a command is the one of the last active context defining it. When the set changes, first the contexts that became inactive and then those that became active toggle their ContextActive mapping, each exactly once and in order.",
        quantifier=dict(over=["inputs", "histories", "configurations"],
                        text="all configurations, connected devices, sets of contexts reported by the client and input histories"),
        why_tests_cant="Tests check a handful of context combinations; which mapping wins depends on every combination of client state, held keys, devices, shared blocks and command overrides.",
        anchors=dict(files=["src/runtime/Stage.cpp", "src/common/Filter.h"],
                     mechanism=[dict(name="active contexts", where="Stage::update_active_contexts"),
                                dict(name="choice of the mapping", where="Stage::match_input"),
                                dict(name="command overrides", where="Stage::find_output"),
                                dict(name="device filters", where="Stage::evaluate_device_filters")]),
        level_note="All obligations for any number of contexts, mappings and devices. Assumes well-formed context indices from the client, that matching a sequence is deterministic and that modifier filters contain no timeout.",
        theorems=["update/set_active_client_contexts: active/toggled", "match_input: lookup", "find_output: output",
                  "evaluate_device_filters: devices"],
    ),
    dict(
        id="C09",
        title="Contexts and actions of the client belong to the configuration in the server",
        statement="The client reports to the server exactly the contexts of the configuration last sent whose window class, title and path filters match the focused window, and none while it is deactivated; a report is only left out when it equals the previous one. An action triggered by the server executes the terminal command with that index of the configuration the server has. A configuration that fails to load changes nothing.",
        quantifier=dict(over=["inputs", "histories", "configurations"],
                        text="all configurations, focus changes, reloads, switches between configuration files (which may fail), activations and triggered actions"),
        why_tests_cant="The client has no tests; the agreement of two processes depends on the order of reloads, failures, focus changes and reconnects.",
        anchors=dict(files=["src/client/ClientState.cpp", "src/common/Filter.h"],
                     mechanism=[dict(name="active contexts", where="ClientState::update_active_contexts"),
                                dict(name="sending the configuration", where="ClientState::send_config"),
                                dict(name="switching configurations", where="ClientState::load_config"),
                                dict(name="triggered actions", where="ClientState::on_execute_action_message")]),
        level_note="All obligations for all histories. Assumes that a configuration that is loaded is sent before the next focus change (main loop) and the contract of reading the configuration file.",
        theorems=["ClientState::load_config: failed", "ClientState::on_set_config_file_message: in-step/determined", "ClientState::send_config: sent", "ClientState::on_execute_action_message: executed"],
    ),
    dict(
        id="C10",
        title="Injected sequences arrive complete and leave no key pressed",
        statement="A valid key sequence injected by a control client is passed to the server exactly as written, except that generic modifiers are replaced by the left-hand ones and at the end every key it leaves pressed is released exactly once. An invalid sequence sends nothing.",
        quantifier=dict(over=["inputs"], text="all key sequences the parser can produce, as input and as output, any length and nesting"),
        why_tests_cant="The client has no tests; sequences can press and release the same keys in any order and number.",
        anchors=dict(files=["src/client/ClientState.cpp"],
                     mechanism=[dict(name="generic modifiers", where="replace_logical_keys"),
                                dict(name="releasing at the end", where="ensure_all_keys_up"),
                                dict(name="injecting", where="ClientState::on_inject_input_message, on_inject_output_message")]),
        level_note="All obligations for all sequences; the sequence parser itself is assumed to return some sequence or throw.",
        theorems=["on_inject_input_message: sent", "on_inject_output_message: sent"],
    ),
    dict(
        id="C11",
        title="Messages between client and server arrive complete, in order and unchanged",
        statement="The server handles exactly the messages the client sent, in the order sent, and vice versa: configurations with every mapping, output, filter, grab filter and directive unchanged and contexts grouped into stages where one begins, active contexts, key states, device names, actions and injected sequences. This holds for any sizes and however the byte stream is cut into pieces: an incomplete message is kept until the rest arrives, nothing is lost, repeated or mixed up.",
        quantifier=dict(over=["inputs", "schedules"],
                        text="all configurations and messages smaller than 4 GiB, any number of them, and all ways the stream can be cut into pieces"),
        why_tests_cant="There are no tests of the connection; writer and reader are separate code which have to agree for every structure, size and fragmentation.",
        anchors=dict(files=["src/client/ServerPort.cpp", "src/server/ClientPort.cpp", "src/common/Connection.h"],
                     mechanism=[dict(name="writing", where="ServerPort::send_config and the write_ functions"),
                                dict(name="reading", where="ClientPort::read_messages and the read_ functions"),
                                dict(name="framing", where="Connection::send_message, Connection::read_messages")]),
        level_note="All obligations for all messages and fragmentations, including the round trip of every structure as lemma. Socket system calls (Connection::send/recv) and the meaning of regular expressions are assumed; the latter two are exercised by the bounded search only.",
        theorems=["ServerPort::send_*/ClientPort::send_*: sent", "ClientPort::read_messages: accepted/handled/kept",
                  "ServerPort::read_messages: accepted/handled/kept", "lemma_config_arrives and the lemmas for the other kinds"],
    ),
    dict(
        id="C12",
        title="No configuration and no order of events crashes the mapping",
        statement="For every configuration the parser accepts and every order of key events, timeouts, virtual key changes, device changes, focus changes and client messages, the server neither accesses anything outside of its data, uses a missing value nor violates one of its own assertions while it maps and sends keys. So the process which grabs the keyboard keeps running.",
        quantifier=dict(over=["inputs", "histories", "configurations"],
                        text="all configurations as the parser makes them, all sequences of events, timeouts, device lists, context changes and messages of any length, any number of stages and devices"),
        why_tests_cant="A crash needs a particular combination of mappings, held keys and history; tests try some and only notice an access out of range when it happens to crash.",
        anchors=dict(files=["src/runtime/Stage.cpp", "src/runtime/MatchKeySequence.cpp", "src/runtime/MultiStage.cpp", "src/server/ServerState.cpp"],
                     mechanism=[dict(name="mapping", where="Stage::update and everything it calls"),
                                dict(name="matching", where="MatchKeySequence::operator()"),
                                dict(name="server", where="ServerState::translate_input, flush_send_buffer and the message handlers")]),
        level_note="Every index, iterator, optional, pointer, variant, shift, binary search, signed arithmetic and assert in the mapping is an obligation, for all histories. Assumed: configurations are well-formed (inputs not empty and states of outputs, both proved of what is parsed in C13; output indices in range, the last context does not fall through), what a stage passes to the next are keys, and fewer than 2^31 events are queued. Lifetime of references into containers is only exercised by the bounded search with sanitizers.",
        theorems=["Stage::update: safe", "Stage::set_active_client_contexts: safe", "Stage::evaluate_device_filters: safe",
                  "ServerState::translate_input: safe", "ServerState::flush_send_buffer: safe", "run-time checks of every function below them"],
    ),
    dict(
        id="C13",
        title="Every key expression is rejected or becomes a sequence that can be mapped",
        statement="Every text given as input or output expression is either rejected with an error or turned into a sequence the mapping can process, without accessing anything outside of the text or overflowing. An input sequence contains a key press or is ContextActive alone, and a no-might-match marker only comes first. An output sequence only presses, releases, excludes or delays keys, releases no key it has not pressed before, and releases all keys it pressed unless it presses nothing after its first release.",
        quantifier=dict(over=["inputs"],
                        text="all texts of any length and content, as input and as output expression"),
        why_tests_cant="Tests parse some hundred expressions; a text from the configuration file or a client can nest groups, strings, timeouts, exclusions and commands in any way.",
        anchors=dict(files=["src/config/ParseKeySequence.cpp", "src/config/string_iteration.h", "src/runtime/Timeout.h"],
                     mechanism=[dict(name="parsing of an expression", where="ParseKeySequence::parse"),
                                dict(name="pressed keys of groups", where="ParseKeySequence::flush_key_buffer, release_pressed_keys"),
                                dict(name="typed text", where="ParseKeySequence::add_string_typing_output")]),
        level_note="All obligations for all texts shorter than 2^31 characters. Assumed: the key lookup returns no timeout, commands get action keys, and typed text consists of keys (the keyboard layout is not under contract). Commands and delays count as released.",
        theorems=["ParseKeySequence::operator(): input/output", "ParseKeySequence::flush_key_buffer: sequence",
                  "ParseKeySequence::add_string_typing_output: sequence", "run-time checks of every function below them"],
    ),
]
