// sources: config runtime server
// Every input event reaches the mapping once, in order.
#include "refserver.h"

static const std::vector<std::string> configs = {
  "A >> X Y\nB >> Virtual1\nVirtual1{C} >> Z\n",
  "A >> X 100ms Y 200ms Z\nB >> 50ms C\nVirtual2 >> B\n",
  "A >> Virtual1 X Virtual2\nVirtual1 >> C Virtual2 D\nVirtual2 >> E\n",
  "Virtual1 >> Virtual2\nVirtual2 >> Virtual1\nA >> Virtual1\n",
  "A{200ms} >> X\nB{!300ms} >> Y\nC >> WheelUp\nWheelUp >> WheelDown X\n",
  "A >> $(one)\nB >> $(two) X $(one)\nWheelDown >> $(two)\n",
  "A >> B 10ms Virtual1 Virtual1 $(x)\n[stage]\nB >> C Virtual2 D\nVirtual1{E} >> F\n",
  "ContextActive >> Virtual1\n[modifier=\"Virtual1\"]\nContextActive >> Virtual2 A\nA >> 20ms Y 20ms X\n",
  "A >> Virtual1 Virtual2 Virtual3 Virtual4 Virtual5 Virtual6 Virtual7 Virtual8 Virtual9 Virtual10 Virtual11 Virtual12 X\n",
  "[device=\"one\"]\nA >> X 100ms Y\n[device=\"two\"]\nA >> Y\n[default]\nB >> Virtual1\nContextActive >> C\n",
  "A >> B ^ C\nD >> E{F}\nG >> X 100ms Y ^ 100ms Z\n",
};

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  const std::vector<Key> keys = { Key::A, Key::B, Key::C, Key::D, Key::E, Key::G, Key::WheelUp, Key::WheelDown,
    Key::ButtonLeft, Key::ShiftLeft };
  const auto v = [](int i) { return static_cast<Key>(*Key::first_virtual + i); };
  while (s.more()) {
    auto real = Logging::make();
    auto ref = RefServer();
    auto log = std::string();
    const auto say = [&](const std::string& t) { log += " | " + t; };
    const auto load = [&]() {
      const auto i = s.pick(static_cast<int>(configs.size()));
      say("load config " + std::to_string(i));
      real->on_configuration_message(make_multi_stage(configs[i]));
      ref.reset(make_multi_stage(configs[i]));
      auto indices = all_contexts(ref.stage->context_count());
      if (!s.chance(10)) {
        say("all contexts");
        real->on_active_contexts_message(indices);
        ref.contexts(indices);
      }
    };
    load();
    auto down = std::set<Key>();
    auto fails = 0;
    auto budget = 0;
    for (auto i = 0; i < 16; ++i) {
      const auto op = s.pick(100);
      if (op < 55) {
        const auto key = s.any(keys);
        auto e = KeyEvent(key, down.count(key) && s.chance(70) ? KeyState::Up : KeyState::Down);
        if (RefServer::wheel(key)) e = KeyEvent(key, KeyState::Up, static_cast<KeyEvent::value_t>(s.pick(2) * 120));
        if (e.state == KeyState::Up) down.erase(key); else down.insert(key);
        say(text(e));
        const auto device = s.pick(3) - 1;
        real->translate_input(e, device);
        ref.feed(e, device);
        if (s.chance(80) && !ref.flush_at) {
          say("flush");
          const auto a = real->flush_send_buffer();
          const auto b = ref.flush();
          if (a != b) fail("%s: flush result %d", log.c_str(), a);
        }
      }
      else if (op < 65) {
        if (ref.flush_at || s.chance(20)) {
          say("flush later");
          const auto a = real->flush_send_buffer();
          const auto b = ref.flush();
          if (a != b) fail("%s: flush result %d", log.c_str(), a);
        }
      }
      else if (op < 73) {
        const auto key = v(s.pick(3) + 1);
        const auto state = static_cast<KeyState>(s.pick(3));
        say("set virtual " + text(KeyEvent(key, state)));
        real->on_set_virtual_key_state_message(key, state);
        ref.set_virtual(key, state);
        if (!ref.flush_at) ref.flush();
      }
      else if (op < 78) {
        auto indices = std::vector<int>();
        for (auto c : all_contexts(ref.stage->context_count())) if (s.chance(60)) indices.push_back(c);
        say("contexts " + std::to_string(indices.size()));
        real->on_active_contexts_message(indices);
        ref.contexts(indices);
      }
      else if (op < 83) {
        auto sequence = KeySequence();
        for (auto n = s.pick(4); n >= 0; --n)
          sequence.push_back(s.chance(20) ? KeyEvent(Key::timeout, KeyState::Down, 30) :
            KeyEvent(s.any(keys), s.chance(50) ? KeyState::Up : KeyState::Down));
        if (s.chance(50)) {
          say("inject output " + text(sequence));
          real->on_inject_output_message(sequence);
          for (auto& e : sequence) ref.queue.push_back(e);
        }
        else {
          say("inject input " + text(sequence));
          real->on_inject_input_message(sequence);
          for (auto& e : sequence)
            if (RefServer::device(e.key)) ref.feed(e, Stage::no_device_index);
        }
        ref.schedule(0);
      }
      else if (op < 86) {
        say("request info");
        real->on_request_next_key_info_message();
        ref.info = true;
      }
      else if (op < 90) {
        const auto ms = s.pick(300);
        say("after " + std::to_string(ms) + "ms");
        g_now_ns += 1000000ll * ms;
      }
      else if (op < 93) {
        say("device refuses");
        budget = s.pick(3);
        auto a = std::make_shared<int>(budget), b = std::make_shared<int>(budget);
        real->can_send = [a]() { return (*a)-- != 0; };
        ref.can_send = [b]() { return (*b)-- != 0; };
      }
      else if (op < 96) {
        say("devices");
        auto descs = std::vector<DeviceDesc>{ { "one", "1" }, { "two", "2" } };
        if (s.chance(30)) descs.pop_back();
        real->set_device_descs(descs);
        ref.descs = descs;
        ref.filters();
      }
      else {
        load();
      }
      if (real->sent != ref.sent)
        fail("%s: sent <%s>, expected <%s>", log.c_str(), text(real->sent).c_str(), text(ref.sent).c_str());
      if (real->stub->actions != ref.actions)
        fail("%s: triggered actions differ (%zu, expected %zu)", log.c_str(), real->stub->actions.size(), ref.actions.size());
      if (real->stub->virtual_keys != ref.virtual_keys)
        fail("%s: reported virtual keys differ (%zu, expected %zu)", log.c_str(), real->stub->virtual_keys.size(), ref.virtual_keys.size());
      if (real->stub->infos != ref.infos)
        fail("%s: next key infos differ", log.c_str());
      if (real->m_send_buffer != ref.queue)
        fail("%s: still queued <%s>, expected <%s>", log.c_str(), text(real->m_send_buffer).c_str(), text(ref.queue).c_str());
      if (real->flush_scheduled_at().has_value() != ref.flush_at.has_value())
        fail("%s: flush %s scheduled, queued <%s>", log.c_str(), real->flush_scheduled_at() ? "is" : "not", text(real->m_send_buffer).c_str());
      if (real->delays != ref.delays)
        fail("%s: scheduled delays differ", log.c_str());
      if (real->timeouts != ref.timeouts)
        fail("%s: requested timeouts differ", log.c_str());
      if (real->exits != ref.exits)
        fail("%s: exit requests differ", log.c_str());
      if (real->m_sending_key)
        fail("%s: stuck while sending", log.c_str());
    }
  }
  return s.done();
}
