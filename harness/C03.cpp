// sources: config runtime server
// The exit sequence is recognised exactly when Shift, Escape, K were pressed in order.
#include "server.h"

static bool keyboard(Key k) {
  return *k > 0 && *k <= 0xEFFF && !(*k >= 0x110 && *k <= 0x114) && !(*k >= 0x150 && *k <= 0x153);
}
static int step(int pos, const KeyEvent& e) {
  static const Key keys[] = { Key::ShiftLeft, Key::Escape, Key::K };
  if (!keyboard(e.key)) return pos;
  if (e.state != KeyState::Down) return 0;
  if (pos > 0 && e.key == keys[pos - 1]) return pos;
  if (pos < 3 && e.key == keys[pos]) return pos + 1;
  return 0;
}

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  const std::vector<std::string> configs = {
    "", "A >> B\n", "ShiftLeft >>\nEscape >> A\nK >> C\n", "ShiftLeft{Escape{K}} >> X\n",
    "Any >>\n", "Shift{A} >> B\n(K A) >> C\n", "ShiftLeft{100ms} >> X\nK{!200ms} >> Y\n",
    "A >> B\n[stage]\nB >> ShiftLeft Escape K\n", "A >> Virtual1\nVirtual1{K} >> X\n",
    "? ShiftLeft Escape K >> X\n", "A >> ShiftLeft Escape K\n[stage]\nEscape >> Q\n",
    "Escape >> Virtual1 100ms X\n", "K >> $(cmd)\n[modifier=\"ShiftLeft\"]\nEscape >> A\n",
  };
  const std::vector<Key> keys = { Key::ShiftLeft, Key::Escape, Key::K, Key::ShiftLeft, Key::Escape, Key::K, Key::A,
    Key::ShiftRight, Key::ButtonLeft, Key::WheelUp, Key::WheelRight, Key::ButtonForward, Key::X };
  while (s.more()) {
    const auto config = s.any(configs);
    auto server = Server::make();
    server->reset_configuration(make_multi_stage(config));
    server->on_active_contexts_message(all_contexts(server->m_stage->context_count()));
    auto history = KeySequence();
    auto down = std::set<Key>();
    auto pos = 0;
    auto last = KeyEvent();
    const auto walk = s.chance(50);
    for (auto i = 0; i < 14; ++i) {
      static const Key want[] = { Key::ShiftLeft, Key::Escape, Key::K };
      auto key = (walk && s.chance(75) ? want[pos % 3] : s.any(keys));
      auto up = down.count(key) && s.chance(40);
      auto e = KeyEvent(key, up ? KeyState::Up : KeyState::Down);
      if (up) down.erase(key); else down.insert(key);
      if (s.chance(5)) e = KeyEvent(Key::timeout, KeyState::Up, static_cast<KeyEvent::value_t>(s.pick(300)));
      if (s.chance(4)) {
        server->on_set_virtual_key_state_message(static_cast<Key>(*Key::first_virtual + 1), KeyState::Not);
        if (server->exits) fail("config <%s> input <%s> virtual key toggled: exit requested", config.c_str(), text(history).c_str());
      }
      if (s.chance(4)) {
        server->on_active_contexts_message(all_contexts(s.chance(50) ? 0 : server->m_stage->context_count()));
        if (server->exits) fail("config <%s> input <%s> contexts updated: exit requested", config.c_str(), text(history).c_str());
      }
      // a repeat while something is pending might be ignored
      if (e == last && (server->flush_scheduled_at() || server->timeout_start_at()) && step(pos, e) != pos) continue;
      history.push_back(e);
      if (e.key != Key::timeout) last = e;
      pos = step(pos, e);
      server->translate_input(e, s.pick(2));
      const auto exits = server->exits;
      if ((pos == 3) != (exits > 0))
        fail("config <%s> input <%s>: exit %s", config.c_str(), text(history).c_str(),
          exits ? "requested" : "not requested");
      if (pos == 3) {
        if (server->has_configuration())
          fail("config <%s> input <%s>: exit requested but configuration still active", config.c_str(), text(history).c_str());
        break;
      }
      if (s.chance(70)) server->flush_send_buffer();
    }
  }
  return s.done();
}
