// sources: config runtime
// Several stages behave like single stages, each given the output of the previous one.
#include "stagegen.h"

struct RefChain {
  std::vector<std::unique_ptr<Stage>> stages;

  static bool to_server(const KeyEvent& e) {
    const auto k = *e.key;
    return e.key == Key::timeout || (k >= 0xF100 && k <= 0xF2FF);
  }
  static void feed(Stage& stage, const KeyEvent& e, int device, KeySequence& out) {
    auto o = stage.update(e, device);
    out.insert(out.end(), o.begin(), o.end());
    stage.reuse_buffer(std::move(o));
  }
  KeySequence update(const KeyEvent& e, int device) {
    auto io = KeySequence{ e };
    for (auto i = 0u; i < stages.size(); ++i) {
      auto out = KeySequence();
      if (i && (e.key == Key::timeout || is_virtual_key(e.key)))
        feed(*stages[i], e, device, out);
      for (const auto& in : io)
        if (i && to_server(in)) out.push_back(in);
        else feed(*stages[i], in, device, out);
      io = out;
    }
    return io;
  }
  KeySequence contexts(const std::vector<int>& indices) {
    auto io = KeySequence();
    auto begin = 0;
    for (const auto& stage : stages) {
      auto out = KeySequence();
      for (const auto& in : io)
        if (to_server(in)) out.push_back(in);
        else feed(*stage, in, Stage::no_device_index, out);
      const auto end = begin + static_cast<int>(stage->contexts().size());
      auto own = std::vector<int>();
      for (auto i : indices)
        if (i >= begin && i < end) own.push_back(i - begin);
      begin = end;
      auto o = stage->set_active_client_contexts(own);
      out.insert(out.end(), o.begin(), o.end());
      stage->reuse_buffer(std::move(o));
      io = out;
    }
    return io;
  }
};

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  while (s.more()) {
    auto gen = ConfigGen{ s };
    gen.devices = true;
    const auto count = s.pick(4);
    auto config = std::string();
    auto real = std::vector<StagePtr>();
    auto contexts = std::vector<std::vector<Stage::Context>>();
    for (auto i = 0; i < count; ++i) {
      auto c = std::string();
      contexts.push_back(gen.make_stage(c)->contexts());
      config += "[stage]\n" + c;
    }
    for (auto rep = 0; rep < 10; ++rep, ++s.tried) {
      auto ref = RefChain();
      auto stages = std::vector<StagePtr>();
      auto n = 0;
      for (const auto& c : contexts) {
        n += static_cast<int>(c.size());
        stages.push_back(std::make_unique<Stage>(c));
        ref.stages.push_back(std::make_unique<Stage>(c));
      }
      auto multi = MultiStage(std::move(stages));
      if (static_cast<int>(multi.context_count()) != n)
        fail("config:\n%s%d contexts", config.c_str(), static_cast<int>(multi.context_count()));
      const auto devices = std::vector<DeviceDesc>{ { "one" }, { "two" } };
      multi.evaluate_device_filters(devices);
      for (const auto& stage : ref.stages)
        stage->evaluate_device_filters(devices);
      auto log = std::string();
      auto pressed = std::set<Key>();
      auto request = std::optional<KeyEvent>();
      const auto compare = [&](KeySequence a, const KeySequence& b) {
        log += " -> [" + text(a) + "]";
        if (a != b)
          fail("config:\n%shistory:%s: the chained stages output [%s]", config.c_str(), log.c_str(), text(b).c_str());
        request.reset();
        if (!a.empty() && a.back().key == Key::timeout)
          request = a.back();
        multi.reuse_buffer(std::move(a));
        const auto down = multi.get_output_keys_down();
        const auto expected = (ref.stages.empty() ? std::vector<Key>() : ref.stages.back()->get_output_keys_down());
        if (down != expected)
          fail("config:\n%shistory:%s: different keys are held down", config.c_str(), log.c_str());
      };
      const auto focus = [&](int percent) {
        auto indices = std::vector<int>();
        log += " contexts";
        for (auto i = 0; i < n; ++i)
          if (s.chance(percent)) {
            indices.push_back(i);
            log += " " + std::to_string(i);
          }
        compare(multi.set_active_client_contexts(indices), ref.contexts(indices));
        if (multi.active_client_contexts() != indices)
          fail("config:\n%shistory:%s: different active contexts", config.c_str(), log.c_str());
      };
      const auto event = [&](const KeyEvent& e, int device) {
        log += " " + text(e);
        compare(multi.update(e, device), ref.update(e, device));
      };
      focus(s.chance(70) ? 100 : 60);
      for (auto i = 0; i < 8; ++i) {
        const auto device = s.pick(2);
        if (s.chance(10)) {
          focus(70);
        }
        else if (request ? s.chance(50) : s.chance(3)) {
          event({ Key::timeout, KeyState::Up, static_cast<KeyEvent::value_t>(
            request && s.chance(60) ? request->value : s.pick(200)) }, device);
        }
        else {
          const auto key = s.chance(10) ? static_cast<Key>(*Key::first_virtual + 1 + s.pick(2)) : s.any(gen_keys);
          const auto up = pressed.count(key) && s.chance(85);
          if (up) pressed.erase(key);
          else pressed.insert(key);
          event({ key, up ? KeyState::Up : KeyState::Down }, is_virtual_key(key) ? Stage::any_device_index : device);
        }
      }
    }
  }
  return s.done();
}
