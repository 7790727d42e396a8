// sources: config client/ClientState.cpp client/ConfigFile.cpp
// flags: -Wl,--unresolved-symbols=ignore-all
// Injected sequences consist of real keys and release everything they press.
#include "client.h"

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  static const std::vector<std::string> keys = { "A", "B", "C", "Shift", "Control", "Alt", "Meta", "ShiftLeft", "AltRight", "ControlRight", "Virtual1", "50ms" };
  const auto part = [&]() -> std::string {
    switch (s.pick(9)) {
      default: return s.any(keys);
      case 3: return s.any(keys) + "{" + s.any(keys) + "}";
      case 4: return "(" + s.any(keys) + " " + s.any(keys) + ")";
      case 5: return "!" + s.any(keys);
      case 6: return s.any(keys) + "{" + s.any(keys) + "{" + s.any(keys) + "}}";
      case 7: return s.any(keys) + "{!" + s.any(keys) + "}";
      case 8: return "'aB c'";
    }
  };
  auto parse = ParseKeySequence();
  ClientState client;
  while (s.more()) {
    auto text = part();
    for (auto i = s.pick(4); i > 0; --i) text += " " + part();
    auto expected = KeySequence();
    auto valid = true;
    try { expected = parse(text, false); } catch (...) { valid = false; }
    for (auto& e : expected)
      e.key = e.key == Key::Shift ? Key::ShiftLeft : e.key == Key::Control ? Key::ControlLeft :
        e.key == Key::Alt ? Key::AltLeft : e.key == Key::Meta ? Key::MetaLeft : e.key;
    for (auto output : { false, true }) {
      g_rec.input.clear(); g_rec.output.clear();
      auto& handler = static_cast<ControlPort::MessageHandler&>(client);
      const auto ok = output ? handler.on_inject_output_message(text) : handler.on_inject_input_message(text);
      auto& sent = output ? g_rec.output : g_rec.input;
      auto& other = output ? g_rec.input : g_rec.output;
      if (ok != valid || !other.empty() || sent.size() != (valid ? 1u : 0u))
        fail("%s \"%s\": %d sequences sent", output ? "output" : "input", text.c_str(), static_cast<int>(sent.size() + other.size()));
      if (!valid) continue;
      const auto got = ::text(sent[0]);
      auto down = std::set<Key>();
      auto n = 0u;
      for (const auto& e : sent[0]) {
        if (e.state == KeyState::Down) down.insert(e.key);
        if (e.state == KeyState::Up) down.erase(e.key);
        if (n < expected.size() ? e != expected[n] : e.state != KeyState::Up)
          fail("%s \"%s\": sent [%s]", output ? "output" : "input", text.c_str(), got.c_str());
        ++n;
      }
      if (n < expected.size())
        fail("%s \"%s\": sent [%s] instead of [%s]", output ? "output" : "input", text.c_str(), got.c_str(), ::text(expected).c_str());
      if (!down.empty())
        fail("%s \"%s\": sent [%s] which leaves a key pressed", output ? "output" : "input", text.c_str(), got.c_str());
    }
  }
  return s.done();
}
