// sources: config runtime
// After everything was released the engine behaves like a new one.
#include "stagegen.h"

// events kept for mappings which do not hold back input
template<typename S>
auto history(const S& stage, int) -> decltype(stage.m_history) { return stage.m_history; }
template<typename S>
KeySequence history(const S&, long) { return { }; }

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  while (s.more()) {
    auto gen = ConfigGen{ s };
    gen.context_active = false;
    auto config = std::string();
    const auto stage0 = gen.make_stage(config);
    for (auto rep = 0; rep < 20; ++rep, ++s.tried) {
      auto stage = Stage(stage0->contexts());
      auto run = StageRun{ stage };
      const auto all = all_contexts(stage.contexts().size());
      run.contexts(all);
      const auto steps = 2 + s.pick(10);
      for (auto i = 0; i < steps; ++i)
        run.step(s, gen_keys, 2);
      run.release_all(s);
      // a key which ends held back sequences
      run.key(s, Key::F10, KeyState::Down, 0);
      run.key(s, Key::F10, KeyState::Up, 0);
      run.release_all(s);
      for (const auto& event : stage.sequence())
        if (event.state == KeyState::Down || event.state == KeyState::DownMatched)
          fail("config:\n%shistory:%s: %s is still considered pressed", config.c_str(), run.log.c_str(),
            text(event).c_str());
      const auto recorded = history(stage, 0);
      for (auto it = recorded.begin(); it != recorded.end(); ++it)
        if (it->state == KeyState::Down && std::none_of(it, recorded.end(),
              [&](const KeyEvent& e) { return e.key == it->key && e.state == KeyState::Up; }))
          fail("config:\n%shistory:%s: %s is still recorded as pressed", config.c_str(), run.log.c_str(),
            text(*it).c_str());
      if (recorded.size() > 60)
        fail("config:\n%shistory:%s: %d events are still recorded", config.c_str(), run.log.c_str(),
          static_cast<int>(recorded.size()));
      run.contexts({ });
      run.log += " AFTERWARDS";
      // compare with new one
      auto fresh = Stage(stage0->contexts());
      auto other = StageRun{ fresh };
      run.contexts(all);
      other.contexts(all);
      auto seed = s.rng();
      auto a = KeySequence(), b = KeySequence();
      run.check = [&](const KeyEvent&, const KeySequence& output) { a.insert(a.end(), output.begin(), output.end()); };
      other.check = [&](const KeyEvent&, const KeySequence& output) { b.insert(b.end(), output.begin(), output.end()); };
      for (auto i = 0; i < 5; ++i) {
        auto sa = s, sb = s;
        sa.rng.seed(seed + i);
        sb.rng.seed(seed + i);
        run.step(sa, gen_keys, 1);
        other.step(sb, gen_keys, 1);
        if (a != b)
          fail("config:\n%shistory:%s: output [%s] of a new engine for the same input", config.c_str(), run.log.c_str(),
            text(b).c_str());
      }
    }
  }
  return s.done();
}
