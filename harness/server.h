#pragma once
#include "common.h"
#include "server/ServerState.h"

struct ClientStub : IClientPort {
  std::vector<int> actions;
  std::vector<std::pair<Key, KeyState>> virtual_keys;
  std::vector<Key> infos;
  std::vector<DeviceDesc> info_descs;
  Socket socket() const override { return 0; }
  Socket listen_socket() const override { return 0; }
  bool version_mismatch() const override { return false; }
  bool listen() override { return false; }
  bool accept() override { return false; }
  void disconnect() override { }
  bool send_triggered_action(int action) override { actions.push_back(action); return true; }
  bool send_virtual_key_state(Key key, KeyState state) override { virtual_keys.emplace_back(key, state); return true; }
  bool send_next_key_info(Key key, const DeviceDesc& desc) override {
    infos.push_back(key); info_descs.push_back(desc); return true; }
  bool read_messages(MessageHandler&, std::optional<Duration>) override { return true; }
};

struct Server : ServerState {
  ClientStub* stub;
  std::vector<KeyEvent> sent;
  int exits = 0;
  std::function<bool()> can_send = []() { return true; };
  static std::unique_ptr<Server> make() {
    auto client = std::make_unique<ClientStub>();
    auto ptr = client.get();
    return std::unique_ptr<Server>(new Server(std::move(client), ptr));
  }
  Server(std::unique_ptr<IClientPort> client, ClientStub* stub) : ServerState(std::move(client)), stub(stub) { }
  bool on_send_key(const KeyEvent& event) override {
    if (!can_send()) return false;
    sent.push_back(event);
    return true;
  }
  void on_exit_requested() override { ++exits; }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter>) override { }
};
