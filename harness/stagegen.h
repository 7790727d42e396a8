// Random configurations and input histories for a single stage.
#pragma once
#include "common.h"

inline const std::vector<Key> gen_keys = {
  Key::A, Key::B, Key::C, Key::D, Key::ShiftLeft, Key::ButtonLeft, Key::WheelUp
};

struct ConfigGen {
  Search& s;
  bool context_active = true;
  bool devices = false;
  bool odd = false;     // also combinations nobody would write
  const std::vector<std::string> ins = { "A", "B", "C", "D", "ShiftLeft", "ButtonLeft", "WheelUp" };
  const std::vector<std::string> outs = { "X", "Y", "A", "B", "ShiftLeft", "Virtual1", "ControlLeft", "Virtual2" };

  std::string in() { return s.any(ins); }
  std::string out() { return s.any(outs); }

  // most random expressions are rejected, do not let them reject the configuration
  static bool valid(const std::string& text, bool is_input) {
    try { ParseKeySequence()(text, is_input); return true; }
    catch (const std::exception&) { return false; }
  }
  std::string input() {
    for (;;)
      if (auto t = random_input(); valid(t, true)) return t;
  }
  std::string random_input() {
    if (odd && s.chance(10)) {
      const auto parts = std::vector<std::string>{ "?", "? ContextActive", "ContextActive", "!ContextActive", "Any", "!Any", "Virtual1", "!Virtual1",
        "(A B)", "A{B}", "100ms", "!100ms", "A", "!A", "{", "}", "(", ")", "''", "'a'", "B{!100ms}", "Shift{A}", "Shift", "^" };
      auto t = s.any(parts);
      for (auto i = s.pick(3); i > 0; --i) t += " " + s.any(parts);
      return t;
    }
    switch (s.pick(22)) {
      default: return in();
      case 5: return in() + " " + in();
      case 6: return in() + "{" + in() + "}";
      case 7: return "(" + in() + " " + in() + ")";
      case 8: return in() + "{200ms}";
      case 9: return in() + "{!200ms}";
      case 10: return in() + " !" + in() + " " + in();
      case 11: return "!" + in() + " " + in();
      case 12: return "Any";
      case 13: return in() + "{Any}";
      case 14: return "? " + in() + " " + in();
      case 15: return s.chance(50) ? "Virtual1" : "Virtual2";
      case 16: return "Virtual1{" + in() + "}";
      case 17: return context_active ? "ContextActive" : in();
      case 18: return in() + "{" + in() + "{" + in() + "}}";
      case 19: return in() + " " + in() + " " + in();
      case 20: return in() + " !" + in();
      case 21: return in() + "{!200ms} " + in();
    }
  }
  std::string output_part() {
    switch (s.pick(14)) {
      default: return out();
      case 4: return out() + "{" + out() + "}";
      case 5: return "(" + out() + " " + out() + ")";
      case 6: return "!" + out();
      case 7: return "!" + in();
      case 8: return "Any";
      case 9: return "!Any";
      case 10: return "50ms";
      case 11: return "^";
      case 12: return in();
      case 13: return out() + "{" + out() + " " + out() + "}";
    }
  }
  std::string output() {
    for (;;)
      if (auto t = random_output(); valid(t, false)) return t;
  }
  std::string random_output() {
    auto t = std::string();
    for (auto i = s.pick(4); i >= 0; --i)
      t += (t.empty() ? "" : " ") + output_part();
    return s.chance(5) ? std::string() : t;
  }
  std::string make() {
    auto t = std::string();
    auto commands = std::set<std::string>();
    auto complete = false;
    const auto mapping = [&]() {
      t += input() + " >> ";
      if (s.chance(15) && !(complete && commands.empty())) {
        auto c = "cmd" + std::to_string(s.pick(2));
        if (complete && !commands.count(c)) c = *commands.begin();
        commands.insert(c);
        t += c;
      }
      else t += output();
      t += "\n";
    };
    for (auto i = s.pick(3); i >= 0; --i) mapping();
    for (const auto& c : commands) t += c + (c == "cmd0" ? " >> X\n" : " >> Y\n");
    complete = true;
    for (auto c = s.pick(4); c > 0; --c) {
      switch (s.pick(devices ? 7 : 5)) {
        case 0: t += "[modifier=\"" + in() + "\"]\n"; break;
        case 1: t += "[modifier=\"!" + in() + "\"]\n"; break;
        case 2: t += "[modifier=\"Virtual1\"]\n"; break;
        case 3: t += "[modifier!=\"" + in() + "\"]\n"; break;
        case 4: t += "[default]\n"; break;
        case 5: t += "[device=\"one\"]\n"; break;
        case 6: t += "[device!=\"one\"]\n"; break;
      }
      if (s.chance(15)) continue;
      for (auto i = s.pick(3); i >= 0; --i) mapping();
      if (!commands.empty() && s.chance(30))
        t += (s.chance(50) ? *commands.begin() : *commands.rbegin()) + " >> " + output() + "\n";
    }
    return t;
  }
  std::unique_ptr<Stage> make_stage(std::string& config) {
    for (;;) {
      config = make();
      try { return ::make_stage(config); }
      catch (const std::exception&) { }
    }
  }
};

// feeds a stage like the server does
struct StageRun {
  Stage& stage;
  std::optional<KeyEvent> request;      // pending input timeout
  std::set<Key> pressed;                // physically
  std::string log;
  std::function<void(const KeyEvent&, const KeySequence&)> check;

  void event(KeyEvent e, int device) {
    log += " " + text(e);
    auto output = stage.update(e, device);
    auto copy = output;
    if (!output.empty() && output.back().key == Key::timeout) {
      request = output.back();
      output.pop_back();
    }
    log += " -> [" + text(output) + "]";
    if (check) check(e, output);
    stage.reuse_buffer(std::move(copy));
  }
  void contexts(const std::vector<int>& indices) {
    log += " contexts";
    for (auto i : indices) log += " " + std::to_string(i);
    auto output = stage.set_active_client_contexts(indices);
    auto copy = output;
    log += " -> [" + text(output) + "]";
    if (check) check(KeyEvent(Key::none, KeyState::Up), output);
    stage.reuse_buffer(std::move(copy));
  }
  void elapse(KeyEvent::value_t time, int device) {
    request.reset();
    event({ Key::timeout, KeyState::Up, time }, device);
  }
  void key(Search& s, Key key, KeyState state, int device) {
    if (request && (state == KeyState::Down || cancel_timeout_on_up(request->state)))
      elapse(s.chance(80) ? s.pick(request->value) : request->value, device);
    if (is_mouse_wheel(key)) {
      // the server inserts the Down
      event({ key, KeyState::Down, 120 }, device);
      // a following stage gets no value
      return event({ key, KeyState::Up, static_cast<KeyEvent::value_t>(s.chance(70) ? 120 : 0) }, device);
    }
    if (state == KeyState::Down) pressed.insert(key);
    else pressed.erase(key);
    event({ key, state }, device);
  }
  void toggle(Key key) {
    const auto down = !pressed.count(key);
    if (down) pressed.insert(key);
    else pressed.erase(key);
    event({ key, down ? KeyState::Down : KeyState::Up }, Stage::any_device_index);
  }
  // some input
  void step(Search& s, const std::vector<Key>& keys, int devices) {
    const auto device = s.pick(devices);
    if (request && s.chance(30))
      return elapse(request->value, device);
    if (s.chance(3)) {
      auto indices = std::vector<int>();
      for (auto i = 0; i < static_cast<int>(stage.contexts().size()); ++i)
        if (s.chance(60)) indices.push_back(i);
      return contexts(indices);
    }
    if (s.chance(5))
      return toggle(static_cast<Key>(*Key::first_virtual + s.pick(2) + 1));
    const auto k = s.any(keys);
    key(s, k, pressed.count(k) && s.chance(85) ? KeyState::Up : KeyState::Down, device);
  }
  // releases everything and lets all timeouts elapse
  void release_all(Search& s) {
    while (!pressed.empty()) {
      auto it = pressed.begin();
      std::advance(it, s.pick(static_cast<int>(pressed.size())));
      if (is_virtual_key(*it)) toggle(*it);
      else key(s, *it, KeyState::Up, 0);
    }
    for (auto i = 0; i < 5 && request; ++i)
      elapse(request->value, 0);
    request.reset();
  }
};
