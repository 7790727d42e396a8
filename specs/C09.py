UNIT = dict(
    id="C09",
    tus=["client/ClientState.cpp", "client/ConfigFile.cpp"],
    include=["client.rs"],
    safety=False,
    opaque={"std::filesystem::path": "Seq<i8>", "std::filesystem::__cxx11::path": "Seq<i8>", "std::basic_ifstream": "Opaque", "ParseConfig": "Opaque"},
    ignore=["verbose", "error", "message", "notify", "std::this_thread::sleep_for"],
    externals={
        "std::regex_search": dict(ret="regex_found({a0}, {a1})"),
        "FocusedWindow::window_class": dict(ret="fw_class({obj})"),
        "FocusedWindow::window_title": dict(ret="fw_title({obj})"),
        "FocusedWindow::window_path": dict(ret="fw_path({obj})"),
        "FocusedWindow::update": dict(effect=["{this}.m_focused_window = if {ret} {{ havoc() }} else {{ {this}.m_focused_window }};"]),
        "ServerPort::send_config": dict(effect=["{this}.g_config = if {ret} {{ Some({a0}) }} else {{ {this}.g_config }};", "{this}.g_failed = {this}.g_failed || !{ret};"]),
        "ServerPort::send_active_contexts": dict(effect=["{this}.g_contexts = if {ret} {{ {a0} }} else {{ {this}.g_contexts }};", "{this}.g_failed = {this}.g_failed || !{ret};"]),
        "get_latest_modify_time": dict(),
        "std::filesystem::path::parent_path": dict(),
        "std::filesystem::path::empty": dict(ret="({obj}.len() == 0)"),
        "std::basic_ios<char>::good": dict(),
        "ParseConfig::operator()": dict(throws=True),
        "execute_terminal_command": dict(effect=["{this}.g_executed = {this}.g_executed.push({a0});"]),
        "ControlPort::set_virtual_key_aliases": dict(),
    },
    ghost_fields={"ClientState": [("g_config", "Option<Config>"), ("g_contexts", "Seq<i32>"), ("g_failed", "bool"), ("g_executed", "Seq<Seq<i8>>")]},
    contracts={
        "Filter::matches": dict(ensures=[("filter", "ret == filter_match(pre, text, substring)")]),
        "Config::Context::matches": dict(
            ensures=[("window", "ret == window_match(pre, window_class, window_title, window_path)")]),
        "ConfigFile::update": dict(
            requires=["fits(pre.m_config)"],
            assumed=[("a configuration has less than 2^31 contexts and actions", "fits(post.m_config)")],
            ensures=[("failed", "!ret ==> post.m_config == pre.m_config"), ("name", "post.m_filename == pre.m_filename")]),
        "ConfigFile::load": dict(requires=["fits(pre.m_config)"], ensures=[("fits", "fits(post.m_config)"), ("failed", "!ret ==> post.m_config == pre.m_config")]),
        "ClientState::update_active_contexts": dict(
            top=True, requires=["determined(pre)", "fits(pre.m_config_file.m_config)"],
            ensures=[("inactive", "!pre.m_active ==> post == pre && !ret"),
                     ("matching", "pre.m_active ==> post.m_active_contexts == current(post)"),
                     ("changed", "ret == (post.m_active_contexts != pre.m_active_contexts)")],
            invs=[("matching", "{s}.m_new_active_contexts =~= matching({s}.m_config_file.m_config.contexts, {s}.m_focused_window, {v:i32} as int)"),
                  ("range", "0 <= {v:i32} <= {s}.m_config_file.m_config.contexts.len()")]),
        "ClientState::send_active_contexts": dict(
            top=True, ensures=[("sent", "!post.g_failed ==> ret && post.g_contexts == pre.m_active_contexts")]),
        "ClientState::send_config": dict(
            top=True, requires=["fits(pre.m_config_file.m_config)"],
            ensures=[("sent", "ret ==> in_step(post)"), ("failed", "!post.g_failed ==> ret"),
                     ("determined", "ret ==> determined(post)"),
                     ("inactive", "!pre.m_active ==> post.m_active_contexts.len() == 0 || !ret"),
                     ("active", "ret && pre.m_active ==> post.m_active_contexts == current(post)"),
                     ("contexts", "ret && pre.m_active && !post.g_failed ==> post.g_contexts == current(post)")]),
        "ClientState::toggle_active": dict(
            top=True, requires=["determined(pre)", "fits(pre.m_config_file.m_config)"],
            ensures=[("toggled", "post.m_active == !pre.m_active"),
                     ("determined", "determined(post)"),
                     ("contexts", "!post.g_failed ==> post.g_contexts == (if post.m_active { current(post) } else { Seq::empty() })")]),
        "ClientState::load_config": dict(
            top=True, requires=["all_fit(pre)"], ensures=[("fits", "all_fit(post)"), ("failed", "!ret && pre.m_config_file.m_filename.len() != 0 ==> post.m_config_file.m_config == pre.m_config_file.m_config")]),
        "ClientState::on_set_config_file_message": dict(
            top=True, requires=["in_step(pre)", "determined(pre)", "all_fit(pre)", "pre.m_config_file.m_filename.len() != 0"],
            ensures=[("in-step", "!post.g_failed ==> in_step(post)"), ("determined", "!post.g_failed ==> determined(post)")]),
        "ClientState::on_execute_action_message": dict(
            top=True, requires=["in_step(pre)", "fits(pre.m_config_file.m_config)"],
            ensures=[("executed", "0 <= triggered_action < pre.g_config.unwrap().actions.len() ==> post.g_executed == pre.g_executed.push(pre.g_config.unwrap().actions[triggered_action as int].terminal_command)"),
                     ("nothing", "!(0 <= triggered_action < pre.g_config.unwrap().actions.len()) ==> post == pre")]),
    },
)
