// Shared pieces of the search programs which look for a failing input once an obligation failed.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#define private public
#define protected public
#include "config/ParseConfig.h"
#include "config/ParseKeySequence.h"
#include "config/get_key_name.h"
#include "runtime/MultiStage.h"
#include "runtime/Stage.h"
#include "runtime/Timeout.h"

#if !defined(OWN_OUTPUT)
void set_message_box_title(const char*) { }
void message(const char*, ...) { }
void notify(const char*, ...) { }
void error(const char*, ...) { }
void verbose(const char*, ...) { }
#endif

inline double wall_clock() {
  timespec t{ };
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

struct Search {
  std::mt19937_64 rng;
  double end;
  unsigned long long tried = 0;

  Search(int argc, char** argv)
    : rng(argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1),
      end(wall_clock() + (argc > 2 ? atof(argv[2]) : 20.0)) {
  }
  bool more() { ++tried; return wall_clock() < end; }
  // 0 .. n-1
  int pick(int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); }
  bool chance(int percent) { return pick(100) < percent; }
  template<typename C> auto& any(const C& c) { return c[pick(static_cast<int>(c.size()))]; }
  int done() { std::printf("TRIED %llu\n", tried); return 0; }
};

inline std::string text(const KeyEvent& e) {
  static const char* const states[] = { "-", "+", "!", "~", "*", "?", "^", "#", "=", "?!" };
  auto s = std::string(static_cast<int>(e.state) < 10 ? states[static_cast<int>(e.state)] : "@");
  if (is_virtual_key(e.key)) s += "Virtual" + std::to_string(*e.key - *Key::first_virtual);
  else if (is_action_key(e.key)) s += "Action" + std::to_string(*e.key - *Key::first_action);
  else if (e.key == Key::timeout) s += std::to_string(e.value) + "ms";
  else if (auto name = get_key_name(e.key)) s += name;
  else s += std::to_string(*e.key);
  return s;
}
template<typename C>
std::string text(const C& sequence) {
  auto s = std::string();
  for (const KeyEvent& e : sequence)
    s += (s.empty() ? "" : " ") + text(e);
  return s;
}

[[noreturn]] inline void fail(const char* format, ...) {
  va_list args;
  va_start(args, format);
  static char buffer[1 << 16];
  std::vsnprintf(buffer, sizeof(buffer), format, args);
  for (auto& c : buffer)
    if (c == '\n') c = ';';
  std::printf("FAIL %s\n", buffer);
  std::fflush(stdout);
  std::_Exit(1);
}

inline std::vector<Stage::Context> stage_contexts(std::vector<Config::Context>& in) {
  auto contexts = std::vector<Stage::Context>();
  for (auto& c : in) {
    auto& context = contexts.emplace_back();
    for (auto& input : c.inputs)
      context.inputs.push_back({ std::move(input.input), input.output_index });
    context.outputs = std::move(c.outputs);
    for (auto& output : c.command_outputs)
      context.command_outputs.push_back({ std::move(output.output), output.index });
    context.device_filter = std::move(c.device_filter);
    context.device_id_filter = std::move(c.device_id_filter);
    context.modifier_filter = std::move(c.modifier_filter);
    context.invert_modifier_filter = c.invert_modifier_filter;
    context.fallthrough = c.fallthrough;
  }
  return contexts;
}

inline Config parse_config(const std::string& string) {
  auto parse = ParseConfig();
  auto stream = std::stringstream(string);
  return parse(stream);
}

inline std::unique_ptr<Stage> make_stage(const std::string& string) {
  auto config = parse_config(string);
  return std::make_unique<Stage>(stage_contexts(config.contexts));
}

inline std::unique_ptr<MultiStage> make_multi_stage(const std::string& string) {
  auto config = parse_config(string);
  auto stages = std::vector<StagePtr>();
  auto contexts = std::vector<Config::Context>();
  auto flush = [&]() {
    stages.push_back(std::make_unique<Stage>(stage_contexts(contexts)));
    contexts.clear();
  };
  for (auto& context : config.contexts) {
    if (context.begin_stage && !contexts.empty())
      flush();
    contexts.push_back(std::move(context));
  }
  flush();
  return std::make_unique<MultiStage>(std::move(stages));
}

inline std::vector<int> all_contexts(size_t n) {
  auto v = std::vector<int>();
  for (auto i = 0; i < static_cast<int>(n); ++i)
    v.push_back(i);
  return v;
}
