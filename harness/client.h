// The client with recording stand-ins for the server, the control port and the focused window.
#pragma once
#include "common.h"
#include "client/ClientState.h"
#include <unistd.h>

struct Recorded {
  std::optional<Config> config;                  // last sent
  std::vector<int> contexts;                     // last sent
  std::vector<std::string> executed;
  std::vector<KeySequence> input, output;
  std::string window_class, window_title, window_path;
  bool window_changed = false;
};
inline Recorded g_rec;

ServerPort::ServerPort() : m_host("stand-in") { }
bool ServerPort::connect() { return true; }
void ServerPort::disconnect() { }
bool ServerPort::send_config(const Config& config) { g_rec.config = config; g_rec.contexts.clear(); return true; }
bool ServerPort::send_active_contexts(const std::vector<int>& indices) { g_rec.contexts = indices; return true; }
bool ServerPort::send_validate_state() { return true; }
bool ServerPort::send_set_virtual_key_state(Key, KeyState) { return true; }
bool ServerPort::send_request_next_key_info() { return true; }
bool ServerPort::send_inject_input(const KeySequence& sequence) { g_rec.input.push_back(sequence); return true; }
bool ServerPort::send_inject_output(const KeySequence& sequence) { g_rec.output.push_back(sequence); return true; }
bool ServerPort::read_messages(MessageHandler&, std::optional<Duration>) { return true; }

ControlPort::ControlPort() : m_host("stand-in") { }
void ControlPort::reset() { }
std::optional<Socket> ControlPort::listen() { return { }; }
std::optional<Socket> ControlPort::accept() { return { }; }
void ControlPort::set_virtual_key_aliases(std::vector<std::pair<std::string, Key>>) { }
void ControlPort::on_virtual_key_state_changed(Key, KeyState) { }
bool ControlPort::reply_next_key_info(const std::string&) { return true; }
void ControlPort::read_messages(MessageHandler&) { }

Host::Host(std::string id) : m_ipc_id(id) { }
Host::~Host() { }
Connection::~Connection() { }

class FocusedWindowImpl { };
FocusedWindow::FocusedWindow() { }
FocusedWindow::~FocusedWindow() { }
bool FocusedWindow::initialize() { return true; }
void FocusedWindow::shutdown() { }
bool FocusedWindow::update() { return std::exchange(g_rec.window_changed, false); }
const std::string& FocusedWindow::window_class() const { return g_rec.window_class; }
const std::string& FocusedWindow::window_title() const { return g_rec.window_title; }
const std::string& FocusedWindow::window_path() const { return g_rec.window_path; }
bool FocusedWindow::is_inaccessible() const { return false; }

bool execute_terminal_command(const std::string& command) { g_rec.executed.push_back(command); return true; }

struct Scratch {
  std::string dir;
  Scratch() { char name[] = "/tmp/search.XXXXXX"; dir = mkdtemp(name); }
  ~Scratch() { std::error_code error; std::filesystem::remove_all(dir, error); }
};
