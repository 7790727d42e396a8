// sources: config
// flags: -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS
// Every text is rejected or becomes a sequence which can be processed.
#include "common.h"
#include "config/ParseKeySequence.h"
#include <csignal>
#include <memory>

static std::string g_text;
static bool g_input;

static void report(const char* what, const KeySequence* sequence = nullptr) {
  fail("%s \"%s\"%s%s%s: %s", g_input ? "input" : "output", g_text.c_str(),
    sequence ? " [" : "", sequence ? text(*sequence).c_str() : "", sequence ? "]" : "", what);
}
extern "C" const char* __asan_default_options() { return "detect_stack_use_after_return=0:malloc_context_size=0:quarantine_size_mb=8"; }
extern "C" void __asan_on_error() { report("run-time error"); }
extern "C" void __ubsan_on_report() { report("run-time error"); }
static void on_signal(int) { report("run-time error"); }

static bool is_exempt(Key key) {
  return key == Key::timeout || key == Key::none || is_action_key(key);
}

static void check_input(const KeySequence& s) {
  if (s.empty()) report("empty sequence", &s);
  auto n = 0;
  auto down = false;
  for (const auto& e : s) {
    switch (e.state) {
      default: report("unexpected state", &s);
      case KeyState::Up: case KeyState::Down: case KeyState::Not: case KeyState::UpAsync: case KeyState::DownAsync:
        if (e.key == Key::none) report("event without key", &s);
        break;
      case KeyState::NoMightMatch:
        if (n || e.key != Key::none) report("no-might-match in sequence", &s);
        break;
      case KeyState::NotTimeout_cancel_on_up_down:
        if (e.key != Key::timeout) report("unexpected state", &s);
        break;
    }
    if (e.state == KeyState::Down && e.key != Key::timeout) down = true;
    ++n;
  }
  if (!down && !(s.size() == 1 && s[0].key == Key::ContextActive)) report("no key down", &s);
  if (s[0].state == KeyState::NoMightMatch && s.size() < 2) report("nothing to match", &s);
}

static void check_output(const KeySequence& s) {
  auto pressed = std::set<Key>();
  auto state = std::map<Key, KeyState>();
  auto up = false, again = false;
  for (const auto& e : s) {
    if (e.state != KeyState::Up && e.state != KeyState::Down && e.state != KeyState::Not &&
        !(e.state == KeyState::OutputOnRelease && e.key == Key::none))
      report("unexpected state", &s);
    if (e.key == Key::timeout && e.state != KeyState::Down) report("unexpected timeout", &s);
    if (e.key == Key::ContextActive) report("ContextActive in output", &s);
    if (e.state == KeyState::Down) {
      pressed.insert(e.key);
      if (up) again = true;
    }
    if (e.state == KeyState::Up) {
      if (!pressed.count(e.key)) report("releases a key it has not pressed", &s);
      up = true;
    }
    state[e.key] = e.state;
  }
  if (again)
    for (const auto& [key, st] : state)
      if (st == KeyState::Down && !is_exempt(key)) report("leaves a key pressed", &s);
}

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  std::signal(SIGABRT, on_signal);
  std::signal(SIGSEGV, on_signal);
  static const std::vector<std::string> tokens = {
    "A", "B", "C", "Shift", "Control", "AltLeft", "Any", "Virtual1", "ContextActive", "Boss", "{", "{", "}", "}", "(", ")", "!", "!",
    "?", "^", "50ms", "!50ms", "200ms", "0ms", "99999999999999ms", "4294967297ms", "'aB'", "\"x\"", "''", "'A'", "'", "\"", "$(ls)",
    "$(a (b) c)", "$(", "$", "#", ";", " # x", "ButtonLeft", "-", "1", "ms", "_", "Meta", "\xc3\xa4", "'\xc3\xa4'", "$()", "&", "''", "none", "0x1", "WheelUp",
  };
  auto parse = ParseKeySequence();
  auto commands = 0;
  const auto part = [&](const auto& part, int depth) -> std::string {
    static const std::vector<std::string> keys = { "A", "B", "C", "Shift", "Control", "Virtual1", "Any" };
    switch (s.pick(depth > 2 ? 4 : 14)) {
      default: return s.any(keys);
      case 3: return s.chance(50) ? "50ms" : "!50ms";
      case 4: case 5: return s.any(keys) + "{" + part(part, depth + 1) + (s.chance(60) ? " " + part(part, depth + 1) : "") + "}";
      case 6: return "(" + s.any(keys) + " " + s.any(keys) + ")";
      case 7: return "(" + s.any(keys) + " " + s.any(keys) + "){" + part(part, depth + 1) + " " + part(part, depth + 1) + "}";
      case 8: return "!" + s.any(keys);
      case 9: return s.chance(50) ? "'aB c'" : "'AB'";
      case 10: return s.any(keys) + "{!" + s.any(keys) + " " + part(part, depth + 1) + "}";
      case 11: return s.chance(50) ? "^" : "$(ls)";
    }
  };
  while (s.more()) {
    auto text = std::string();
    if (s.chance(50)) {
      if (s.chance(8)) text = "? ";
      for (auto i = 1 + s.pick(4); i > 0; --i) text += part(part, 0) + " ";
      if (s.chance(20)) text.insert(s.pick(static_cast<int>(text.size()) + 1), s.any(tokens));
      if (s.chance(20)) text.erase(s.pick(static_cast<int>(text.size())), 1);
    }
    else {
      for (auto i = s.pick(9); i > 0; --i) {
        text += s.any(tokens);
        if (s.chance(40)) text += " ";
      }
    }
    if (s.chance(10) && !text.empty()) text[s.pick(static_cast<int>(text.size()))] = static_cast<char>(s.pick(256));
    g_text = text;
    // in memory of exactly this size
    auto memory = std::make_unique<char[]>(text.size());
    std::copy(text.begin(), text.end(), memory.get());
    for (auto input : { true, false }) {
      g_input = input;
      try {
        const auto sequence = parse(std::string_view(memory.get(), text.size()), input, ::get_key_by_name,
          [&](std::string_view) { return static_cast<Key>(static_cast<int>(Key::first_action) + (commands++ % 100)); });
        if (input) check_input(sequence); else check_output(sequence);
      }
      catch (const std::exception&) { }
    }
  }
  return s.done();
}
