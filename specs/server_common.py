"""Pieces shared by the checks about the server state."""

# calls out of the server: only recorded or only producing unknown values
IGNORE = ["verbose", "message", "error", "verbose_debug_io", "debug",
          "ServerState::on_flush_scheduled", "ServerState::on_timeout_scheduled",
          "ServerState::on_timeout_cancelled"]

EXTERNALS = {
    "std::chrono::_V2::system_clock::now": {},
    "std::chrono::_V2::steady_clock::now": {},
    "std::chrono::steady_clock::now": {},
    "IClientPort::send_virtual_key_state": {},
    "IClientPort::send_next_key_info": {},
    "IClientPort::send_triggered_action": {},
    "ServerState::get_devices_error_message": {},
    "ServerState::on_send_key": {},
    "ServerState::on_exit_requested": {},
}

SERVER_TUS = ["runtime/Stage.cpp", "runtime/MatchKeySequence.cpp", "runtime/MultiStage.cpp",
              "server/ServerState.cpp"]
