// sources: config runtime
// Which contexts are active and which mapping is applied, against a direct reading of the configuration.
#include "common.h"

const std::vector<Key> f_keys = { Key::F1, Key::F2, Key::F3 };
const std::vector<Key> mod_keys = { Key::ShiftLeft, Key::ControlLeft,
  static_cast<Key>(*Key::first_virtual + 1) };
const std::vector<std::string> f_names = { "F1", "F2", "F3" };
const std::vector<std::string> mod_names = { "ShiftLeft", "ControlLeft", "Virtual1" };
const std::vector<std::string> unique_names = {
  "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S",
  "T", "U", "V", "W", "X", "Y", "Z", "Numpad0", "Numpad1", "Numpad2", "Numpad3", "Numpad4",
  "Numpad5", "Numpad6", "Numpad7", "Numpad8", "Numpad9", "F13", "F14", "F15", "F16", "F17", "F18",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "Insert", "Home", "End", "PageUp", "PageDown" };

struct Gen {
  Search& s;
  size_t used = 0;
  std::string unique() { return used < unique_names.size() ? unique_names[used++] : ""; }

  void header(std::string& t) {
    t += "[";
    auto any = false;
    if (s.chance(55)) {
      t += s.chance(30) ? "modifier!=\"" : "modifier=\"";
      const auto first = s.pick(3), second = s.pick(3);
      t += (s.chance(30) ? "!" : "") + mod_names[first];
      if (second != first && s.chance(40))
        t += (s.chance(30) ? " !" : " ") + mod_names[second];
      t += "\"";
      any = true;
    }
    if (s.chance(45)) {
      static const std::vector<std::string> filters = {
        "device=\"one\"", "device!=\"one\"", "device=/o/", "device=\"three\"", "device-id=\"2\"", "device-id!=\"2\"" };
      t += (any ? " " : "") + s.any(filters);
      any = true;
    }
    t += any ? "]\n" : "default]\n";
  }
  std::string make() {
    auto t = std::string();
    auto known = std::set<int>();
    const auto mapping = [&]() {
      if (s.chance(12)) { t += "ContextActive >> " + unique() + "\n"; return; }
      t += s.any(f_names) + (s.chance(15) ? " " + s.any(f_names) : "") + " >> ";
      if (s.chance(45)) {
        const auto c = s.pick(3);
        t += "cmd" + std::to_string(c) + "\n";
        known.insert(c);
      }
      else t += unique() + "\n";
    };
    const auto commands = [&](int percent) {
      for (auto c : known)
        if (s.chance(percent))
          t += "cmd" + std::to_string(c) + " >> " + unique() + "\n";
    };
    for (auto i = s.pick(4); i > 0; --i) mapping();
    commands(70);
    for (auto c = 1 + s.pick(6); c > 0; --c) {
      header(t);
      if (s.chance(25)) continue;
      for (auto i = s.pick(4); i > 0; --i) mapping();
      commands(40);
    }
    // a command needs a mapping
    t += "[default]\n";
    commands(50);
    return t;
  }
};

struct Ref {
  const std::vector<Stage::Context>& contexts;
  const std::vector<DeviceDesc>& devices;
  std::set<Key> pressed;
  std::vector<int> client;

  static bool filter(const Filter& f, const std::string& text) {
    auto r = f.string.empty() ? true : f.regex ? std::regex_search(text, *f.regex) : f.string == text;
    return r != f.invert;
  }
  static bool filtered(const Stage::Context& c) { return !c.device_filter.string.empty() || !c.device_id_filter.string.empty(); }
  bool device(const Stage::Context& c, int d) const {
    if (d == Stage::any_device_index || !filtered(c)) return true;
    if (d == Stage::no_device_index || d >= 64) return false;
    return filter(c.device_filter, devices[d].name) && filter(c.device_id_filter, devices[d].id);
  }
  std::vector<int> active() const {
    auto r = std::vector<int>();
    for (auto i : client) {
      const auto& c = contexts[i];
      auto ok = true;
      for (const auto& m : c.modifier_filter)
        ok = ok && (pressed.count(m.key) > 0) == (m.state != KeyState::Not);
      if (ok == c.invert_modifier_filter) continue;
      auto found = !filtered(c);
      for (auto d = 0; d < static_cast<int>(devices.size()) && d < 64; ++d)
        found = found || device(c, d);
      if (!found) continue;
      auto k = i;
      while (contexts[k].fallthrough) ++k;
      if (r.empty() || r.back() != k) r.push_back(k);
    }
    return r;
  }
  const KeySequence* output(const Stage::Context& c, int index) const {
    if (index >= 0) return &c.outputs[index];
    auto r = static_cast<const KeySequence*>(nullptr);
    for (auto i : active())
      for (const auto& o : contexts[i].command_outputs)
        if (o.index == index) r = &o.output;
    return r;
  }
  // the keys output when the key is pressed, none when it is held back
  KeySequence press(Key key, int d, bool& held_back) const {
    for (auto i : active()) {
      const auto& c = contexts[i];
      if (!device(c, d)) continue;
      for (const auto& m : c.inputs) {
        if (m.input[0].key != key) continue;
        const auto o = output(c, m.output_index);
        auto keys = std::set<Key>();
        auto downs = 0;
        for (const auto& e : m.input)
          if (e.state == KeyState::Down) ++downs;
        if (downs > 1) { held_back = true; return { }; }
        if (o) return *o;
      }
    }
    return { KeyEvent(key, KeyState::Down) };
  }
  KeySequence toggles(const std::vector<int>& before, const std::vector<int>& after) const {
    auto r = KeySequence();
    const auto toggle = [&](int i, bool on) {
      for (const auto& m : contexts[i].inputs)
        if (m.input[0].key == Key::ContextActive) {
          if (const auto o = output(contexts[i], m.output_index))
            for (const auto& e : *o)
              if (e.state == KeyState::Down) r.push_back(KeyEvent(e.key, on ? KeyState::Down : KeyState::Up));
          return;
        }
    };
    for (auto i : before) if (!std::count(after.begin(), after.end(), i)) toggle(i, false);
    for (auto i : after) if (!std::count(before.begin(), before.end(), i)) toggle(i, true);
    return r;
  }
};

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  while (s.more()) {
    auto gen = Gen{ s };
    const auto config = gen.make();
    auto first = std::unique_ptr<Stage>();
    try { first = make_stage(config); }
    catch (const std::exception&) { continue; }
    for (auto rep = 0; rep < 8; ++rep, ++s.tried) {
      auto stage = Stage(first->contexts());
      auto devices = std::vector<DeviceDesc>();
      const auto n_devices = s.chance(5) ? 58 + s.pick(6) : s.pick(4);
      static const std::vector<DeviceDesc> some = { { "one", "1" }, { "two", "2" }, { "one", "2" } };
      for (auto i = 0; i < n_devices; ++i) devices.push_back(s.any(some));
      auto ref = Ref{ first->contexts(), devices };
      stage.evaluate_device_filters(devices);
      auto log = " " + std::to_string(n_devices) + " devices";
      for (auto i = 0; i < std::min(n_devices, 3); ++i) log += " " + devices[i].name + "/" + devices[i].id;

      const auto only_toggles = [&](const KeySequence& o) {
        auto r = KeySequence();
        for (const auto& e : o)
          if (!ref.pressed.count(e.key) && !std::count(mod_keys.begin(), mod_keys.end(), e.key)) r.push_back(e);
        return r;
      };
      const auto compare = [&](const KeySequence& got, const KeySequence& expected, const char* what) {
        log += " -> [" + text(got) + "]";
        auto ok = (got.size() == expected.size());
        for (auto i = 0u; ok && i < got.size(); ++i)
          ok = got[i].key == expected[i].key && (got[i].state == KeyState::Up) == (expected[i].state == KeyState::Up);
        if (!ok)
          fail("config:\n%shistory:%s: %s [%s]", config.c_str(), log.c_str(), what, text(expected).c_str());
      };
      const auto focus = [&](int percent) {
        const auto before = ref.active();
        ref.client.clear();
        log += " contexts";
        for (auto i = 0; i < static_cast<int>(ref.contexts.size()); ++i)
          if (s.chance(percent)) { ref.client.push_back(i); log += " " + std::to_string(i); }
        auto o = stage.set_active_client_contexts(ref.client);
        compare(only_toggles(o), ref.toggles(before, ref.active()), "the toggled contexts should output");
        stage.reuse_buffer(std::move(o));
      };
      focus(s.chance(60) ? 100 : 60);
      auto stop = false;
      for (auto i = 0; i < 14 && !stop; ++i) {
        const auto device = n_devices == 0 || s.chance(5) ? Stage::no_device_index : s.pick(n_devices);
        if (s.chance(8)) {
          focus(70);
        }
        else if (s.chance(40)) {
          const auto key = s.any(mod_keys);
          const auto before = ref.active();
          const auto down = !ref.pressed.count(key);
          if (down) ref.pressed.insert(key); else ref.pressed.erase(key);
          const auto e = KeyEvent(key, down ? KeyState::Down : KeyState::Up);
          log += " " + text(e);
          auto o = stage.update(e, is_virtual_key(key) ? Stage::any_device_index : device);
          compare(only_toggles(o), ref.toggles(before, ref.active()), "the toggled contexts should output");
          stage.reuse_buffer(std::move(o));
        }
        else {
          const auto key = s.any(f_keys);
          auto expected = KeySequence();
          expected = ref.press(key, device, stop);
          log += " +" + std::string(get_key_name(key)) + " (device " + std::to_string(device) + ")";
          auto o = stage.update({ key, KeyState::Down }, device);
          auto got = KeySequence();
          for (const auto& e : o) if (e.state == KeyState::Down) got.push_back(e);
          auto want = KeySequence();
          for (const auto& e : expected) if (e.state == KeyState::Down) want.push_back(e);
          compare(got, want, stop ? "the press should be held back" : "the mapping should output");
          stage.reuse_buffer(std::move(o));
          auto u = stage.update({ key, KeyState::Up }, device);
          stage.reuse_buffer(std::move(u));
        }
      }
    }
  }
  return s.done();
}
