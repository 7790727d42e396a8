// sources: config runtime server
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS
// No configuration and no history makes the mapping fail an assertion or access something which does not exist.
#include "stagegen.h"
#include "server.h"
#include <csignal>

static std::string g_config;
static std::string* g_log;

// tells the input on which the program is about to end
static void report() {
  fail("config:\n%shistory:%s: the mapping ends with a run-time error", g_config.c_str(), g_log ? g_log->c_str() : "");
}
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0:malloc_context_size=0:quarantine_size_mb=8"; }
extern "C" void __asan_on_error() { report(); }
extern "C" void __ubsan_on_report() { report(); }
static void on_signal(int) { report(); }

// the same through the server, also with several stages
static void run_server(Search& s, const std::vector<Key>& keys) {
  auto gen = ConfigGen{ s };
  gen.devices = s.chance(40);
  gen.odd = true;
  auto config = std::string();
  auto stages = std::unique_ptr<MultiStage>();
  while (!stages) {
    config = "";
    for (auto i = 0, n = 1 + s.pick(3); i < n; ++i)
      config += (i ? "[stage]\n" : "") + gen.make();
    try { stages = make_multi_stage(config); }
    catch (const std::exception&) { }
  }
  g_config = config;
  auto log = std::string();
  g_log = &log;
  const auto count = static_cast<int>(stages->context_count());
  auto server = Server::make();
  if (s.chance(95)) server->on_configuration_message(std::move(stages));
  server->can_send = [&]() { return s.chance(97); };
  const auto contexts = [&](int percent) {
    auto indices = std::vector<int>();
    for (auto i = 0; i < count; ++i)
      if (s.chance(percent)) indices.push_back(i);
    if (s.chance(5)) indices.push_back(count + s.pick(3));
    server->on_active_contexts_message(indices);
  };
  contexts(90);
  auto pressed = std::set<Key>();
  for (auto i = 0, n = 3 + s.pick(30); i < n; ++i) {
    switch (s.pick(24)) {
      default: {
        const auto k = s.any(keys);
        const auto e = KeyEvent(k, pressed.count(k) && s.chance(85) ? KeyState::Up : KeyState::Down,
          is_mouse_wheel(k) ? 120 : 0);
        if (e.state == KeyState::Down) pressed.insert(k); else pressed.erase(k);
        log += " " + text(e);
        server->translate_input(e, s.chance(90) ? s.pick(3) : s.pick(80) - 2);
        if (s.chance(80)) server->flush_send_buffer();
        break;
      }
      case 0: {
        auto descs = std::vector<DeviceDesc>();
        for (auto i = s.chance(10) ? 62 + s.pick(6) : s.pick(4); i > 0; --i)
          descs.push_back({ s.chance(50) ? "one" : "two", "" });
        log += " " + std::to_string(descs.size()) + "-devices";
        server->set_device_descs(descs);
        break;
      }
      case 1: log += " contexts"; contexts(s.pick(100)); break;
      case 2: {
        const auto key = s.chance(50) ? static_cast<Key>(*Key::first_virtual + s.pick(3)) :
          s.any(std::vector<Key>{ Key::none, Key::any, Key::timeout, Key::first_virtual, Key::last_virtual, Key::first_action, Key::Shift });
        const auto state = s.any(std::vector<KeyState>{ KeyState::Up, KeyState::Down, KeyState::Not });
        log += " set(" + text(KeyEvent(key, state)) + ")";
        server->on_set_virtual_key_state_message(key, state);
        break;
      }
      case 3: log += " validate"; server->on_validate_state_message(); break;
      case 4: log += " key-info"; server->on_request_next_key_info_message(); break;
      case 5: {
        auto sequence = KeySequence();
        for (auto i = s.pick(4); i > 0; --i)
          sequence.push_back({ s.chance(80) ? s.any(keys) : s.any(std::vector<Key>{ Key::none, Key::any, Key::timeout, Key::first_virtual, Key::first_action }),
            static_cast<KeyState>(s.pick(9)), static_cast<KeyEvent::value_t>(s.pick(3)) });
        log += " inject(" + text(sequence) + ")";
        if (s.chance(50)) server->on_inject_input_message(sequence);
        else server->on_inject_output_message(sequence);
        break;
      }
      case 6: log += " flush"; server->flush_send_buffer(); break;
      case 7:
        if (server->timeout_start_at()) {
          log += " elapsed";
          server->cancel_timeout();
          server->translate_input(KeyEvent(Key::timeout, KeyState::Up, static_cast<KeyEvent::value_t>(s.pick(300))), Stage::any_device_index);
        }
        break;
      case 8: if (s.chance(20)) { log += " reset"; server->reset_configuration(); } break;
    }
  }
  g_log = nullptr;
}

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  std::signal(SIGABRT, on_signal);
  std::signal(SIGSEGV, on_signal);
  std::signal(SIGFPE, on_signal);
  auto keys = gen_keys;
  keys.insert(keys.end(), { Key::E, Key::F10, Key::IntlBackslash, Key::Escape });
  while (s.more()) {
    for (auto rep = 0; rep < 5; ++rep, ++s.tried)
      run_server(s, keys);
    auto gen = ConfigGen{ s };
    gen.devices = s.chance(40);
    gen.odd = true;
    auto config = std::string();
    const auto stage0 = gen.make_stage(config);
    g_config = config;
    for (auto rep = 0; rep < 10; ++rep, ++s.tried) {
      auto stage = Stage(stage0->contexts());
      auto run = StageRun{ stage };
      g_log = &run.log;
      if (gen.devices) {
        auto descs = std::vector<DeviceDesc>();
        // also more devices than fit
        for (auto i = s.chance(10) ? 62 + s.pick(6) : s.pick(4); i > 0; --i)
          descs.push_back({ s.chance(50) ? "one" : "two", "" });
        stage.evaluate_device_filters(descs);
      }
      run.contexts(all_contexts(stage.contexts().size()));
      const auto steps = 2 + s.pick(25);
      for (auto i = 0; i < steps; ++i) {
        if (s.chance(3)) {
          // more unusual events
          const auto device = s.chance(50) ? s.pick(70) : Stage::any_device_index;
          switch (s.pick(3)) {
            case 0: run.event({ Key::timeout, KeyState::Up, static_cast<KeyEvent::value_t>(s.pick(400)) }, device); break;
            case 1: run.event({ Key::unicode_output, KeyState::Down, 'x' }, device); break;
            case 2: run.event({ s.any(keys), KeyState::Up }, device); break;
          }
          continue;
        }
        run.step(s, keys, s.chance(20) ? 70 : 2);
        if (s.chance(3)) stage.validate_state([&](Key) { return s.chance(50); });
      }
      run.release_all(s);
      g_log = nullptr;
    }
  }
  return s.done();
}
