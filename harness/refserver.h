#pragma once
// The server's bookkeeping written down a second time, around the real mapping code.
// Time stands still unless the test moves it.
#include "server.h"

static long long g_now_ns = 1'000'000'000;
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
  return time_point(duration(g_now_ns));
}

struct Logging : Server {
  std::vector<double> delays, timeouts;
  int cancelled = 0;
  using Server::Server;
  static std::unique_ptr<Logging> make() {
    auto client = std::make_unique<ClientStub>();
    auto ptr = client.get();
    return std::unique_ptr<Logging>(new Logging(std::move(client), ptr));
  }
  void on_flush_scheduled(Duration d) override { delays.push_back(d.count()); }
  void on_timeout_scheduled(Duration d) override { timeouts.push_back(d.count()); }
  void on_timeout_cancelled() override { ++cancelled; }
};

struct RefServer {
  std::unique_ptr<MultiStage> stage = std::make_unique<MultiStage>();
  std::vector<KeyEvent> queue;
  std::vector<Key> virtual_down;
  KeyEvent last;
  bool sending = false, cancel_on_up = false, info = false, can_send_ok = true;
  std::optional<long long> flush_at, timeout_at;
  std::vector<KeyEvent> sent;
  std::vector<int> actions;
  std::vector<std::pair<Key, KeyState>> virtual_keys;
  std::vector<Key> infos;
  std::vector<double> delays, timeouts;
  std::vector<DeviceDesc> descs;
  int exits = 0, cancelled = 0;
  std::function<bool()> can_send = []() { return true; };

  static bool device(Key k) { return *k > 0 && *k <= 0xEFFF; }
  static bool wheel(Key k) { return *k >= 0x150 && *k <= 0x153; }
  static bool virt(Key k) { return *k >= 0xF100 && *k <= 0xF1FF; }
  static bool action(Key k) { return *k >= 0xF200 && *k <= 0xF2FF; }

  void feed(KeyEvent e, int device_index) {
    if (e == last && (flush_at || timeout_at)) return;
    if (info && device(e.key) && e.key != Key::ButtonLeft && e.state == KeyState::Down) {
      infos.push_back(e.key);
      info = false;
      return;
    }
    if (timeout_at && (e.state == KeyState::Down || cancel_on_up)) {
      auto ms = (g_now_ns - *timeout_at) / 1000000;
      timeout_at.reset();
      ++cancelled;
      feed(KeyEvent(Key::timeout, KeyState::Up, static_cast<KeyEvent::value_t>(ms > 4095 ? 4095 : ms < 0 ? 0 : ms)), device_index);
    }
    if (wheel(e.key) && e.state == KeyState::Up)
      feed(KeyEvent(e.key, KeyState::Down, e.value), device_index);
    if (e.key != Key::timeout) last = e;
    auto output = stage->update(e, device_index);
    if (stage->should_exit()) {
      reset(nullptr);
      ++exits;
      return;
    }
    if (!output.empty() && output.back().key == Key::timeout) {
      auto t = output.back();
      output.pop_back();
      timeout_at = g_now_ns;
      cancel_on_up = (t.state == KeyState::Up || t.state == KeyState::NotTimeout_cancel_on_up_down);
      timeouts.push_back(t.value / 1000.0);
    }
    for (auto o : output) {
      if (wheel(e.key) && wheel(o.key) && o.value == 0) o.value = e.value;
      queue.push_back(o);
    }
    stage->reuse_buffer(std::move(output));
  }
  void set_virtual(Key key, KeyState state) {
    auto it = std::find(virtual_down.begin(), virtual_down.end(), key);
    auto down = (it != virtual_down.end());
    auto want = (state == KeyState::Down ? true : state == KeyState::Up ? false : !down);
    if (want == down) return;
    if (want) virtual_down.push_back(key); else virtual_down.erase(it);
    auto s = (want ? KeyState::Down : KeyState::Up);
    feed(KeyEvent(key, s), Stage::any_device_index);
    if (virt(key)) virtual_keys.emplace_back(key, s);
  }
  bool flush() {
    if (sending) return true;
    sending = true;
    flush_at.reset();
    auto ok = true;
    auto toggles = 0;
    while (!queue.empty()) {
      auto e = queue.front();
      if (virt(e.key)) {
        queue.erase(queue.begin());
        if (e.state == KeyState::Down && ++toggles < 10)
          set_virtual(e.key, KeyState::Not);
        continue;
      }
      if (action(e.key)) {
        if (e.state == KeyState::Down) actions.push_back(*e.key - 0xF200);
      }
      else if (e.key == Key::timeout) {
        queue.erase(queue.begin());
        schedule(e.value / 1000.0);
        break;
      }
      else if (!(wheel(e.key) && e.state == KeyState::Down)) {
        if (!can_send()) { ok = false; break; }
        sent.push_back(e);
      }
      queue.erase(queue.begin());
    }
    sending = false;
    return ok;
  }
  void schedule(double delay) {
    if (flush_at) return;
    flush_at = g_now_ns;
    delays.push_back(delay);
  }
  void contexts(const std::vector<int>& indices) {
    for (auto e : stage->set_active_client_contexts(indices)) queue.push_back(e);
    stage->reuse_buffer({ });
    if (!flush_at) flush();
  }
  void filters() {
    if (!stage->has_device_filters() || descs.empty()) return;
    stage->evaluate_device_filters(descs);
    contexts(std::vector<int>(stage->active_client_contexts()));
  }
  void reset(std::unique_ptr<MultiStage> next) {
    for (auto key : stage->get_output_keys_down()) queue.push_back(KeyEvent(key, KeyState::Up));
    flush();
    stage = (next ? std::move(next) : std::make_unique<MultiStage>());
    for (auto key : virtual_down) virtual_keys.emplace_back(key, KeyState::Up);
    virtual_down.clear();
    last = { };
    timeout_at.reset();
    filters();
  }
};
