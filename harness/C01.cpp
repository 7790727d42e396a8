// sources: config runtime
// Keys which were output as pressed are released when the input which triggered them was released.
#include "stagegen.h"

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  while (s.more()) {
    auto gen = ConfigGen{ s };
    gen.context_active = s.chance(30);
    auto config = std::string();
    const auto stage0 = gen.make_stage(config);
    const auto has_context_active = (config.find("ContextActive") != std::string::npos);
    for (auto rep = 0; rep < 20; ++rep, ++s.tried) {
      auto stage = Stage(stage0->contexts());
      auto run = StageRun{ stage };
      auto held = std::set<Key>();
      run.check = [&](const KeyEvent&, const KeySequence& output) {
        for (auto& e : output)
          if (e.state == KeyState::Down) held.insert(e.key);
          else if (e.state == KeyState::Up) held.erase(e.key);
        const auto down = stage.get_output_keys_down();
        for (auto k : held)
          if (is_device_key(k) && std::find(down.begin(), down.end(), k) == down.end())
            fail("config:\n%shistory:%s: %s is down but not listed as output key down", config.c_str(),
              run.log.c_str(), text(KeyEvent(k, KeyState::Down)).c_str());
      };
      const auto expect_released = [&](const char* when) {
        for (auto k : held)
          if (is_device_key(k))
            fail("config:\n%shistory:%s: %s stays pressed %s", config.c_str(), run.log.c_str(),
              text(KeyEvent(k, KeyState::Down)).c_str(), when);
      };
      run.contexts(all_contexts(stage.contexts().size()));
      const auto steps = 2 + s.pick(12);
      for (auto i = 0; i < steps; ++i) {
        run.step(s, gen_keys, 2);
        if (run.pressed.empty() && !run.request && stage.sequence().empty() && !has_context_active)
          expect_released("when no key is pressed");
      }
      run.release_all(s);
      run.contexts({ });
      // a key which ends held back sequences
      run.key(s, Key::F10, KeyState::Down, 0);
      run.key(s, Key::F10, KeyState::Up, 0);
      run.release_all(s);
      expect_released("after all keys were released");
    }
  }
  return s.done();
}
