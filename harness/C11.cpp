// sources: config runtime client/ServerPort.cpp server/ClientPort.cpp common/Connection.cpp
// flags: -Wl,--unresolved-symbols=ignore-all
// What one side sends is what the other side handles, however the bytes are cut into pieces.
#include "common.h"
#include "client/ServerPort.h"
#include "server/ClientPort.h"
#include "common/parse_regex.h"
#include <cerrno>
#include <sys/types.h>

Host::Host(std::string) { }
Host::~Host() = default;
bool Host::listen() { return false; }
Connection Host::accept(std::optional<Duration>) { return Connection(); }
Connection Host::connect(std::optional<Duration>) { return Connection(); }

static Search* g_search;
static std::string g_sent;
static std::string g_piece;

extern "C" ssize_t send(int, const void* data, size_t size, int) {
  const auto kind = g_search->pick(8);
  if (kind < 2) { errno = kind ? EINTR : EWOULDBLOCK; return -1; }
  auto n = size;
  if (kind < 5 && n > 1) n = 1 + g_search->rng() % (n - 1);
  g_sent.append(static_cast<const char*>(data), n);
  return static_cast<ssize_t>(n);
}
extern "C" ssize_t recv(int, void* data, size_t size, int) {
  if (g_piece.empty()) { errno = EWOULDBLOCK; return -1; }
  const auto kind = g_search->pick(8);
  if (kind < 1) { errno = EINTR; return -1; }
  auto n = std::min(size, g_piece.size());
  if (kind < 3 && n > 1) n = 1 + g_search->rng() % (n - 1);
  std::memcpy(data, g_piece.data(), n);
  g_piece.erase(0, n);
  return static_cast<ssize_t>(n);
}
extern "C" int close(int) { return 0; }

template<typename T> std::string num(T n) { return std::to_string(static_cast<long long>(n)); }
static std::string show(const KeySequence& s) {
  auto r = "(" + num(s.size()) + ":";
  for (auto& e : s) r += num(*e.key) + "/" + num(static_cast<int>(e.state)) + "/" + num(e.value) + " ";
  return r + ")";
}
static std::string show(const Filter& f) { return "'" + f.string + "'" + (f.invert ? "!" : "") + (is_regex(f.string) ? "r" : ""); }
static std::string got(const Filter& f) { return "'" + f.string + "'" + (f.invert ? "!" : "") + (f.regex ? "r" : ""); }
template<typename C>
static std::string show_context(const C& c, std::string (*filter)(const Filter&)) {
  auto r = "{" + num(c.inputs.size()) + ":";
  for (auto& i : c.inputs) r += show(i.input) + "=" + num(i.output_index) + " ";
  r += "|" + num(c.outputs.size()) + ":";
  for (auto& o : c.outputs) r += show(o);
  r += "|" + num(c.command_outputs.size()) + ":";
  // the order of command outputs has no meaning
  auto commands = std::vector<std::string>();
  for (auto& o : c.command_outputs) commands.push_back(show(o.output) + "=" + num(o.index));
  std::sort(commands.begin(), commands.end());
  for (auto& o : commands) r += o;
  return r + "|" + filter(c.device_filter) + filter(c.device_id_filter) + show(c.modifier_filter) +
    (c.invert_modifier_filter ? "I" : "i") + (c.fallthrough ? "F" : "f") + "}";
}
static std::string show_grabs(const std::vector<GrabDeviceFilter>& filters, std::string (*filter)(const Filter&)) {
  auto r = "grab " + num(filters.size());
  for (auto& f : filters) r += filter(f) + (f.by_id ? "id" : "name");
  return r;
}
static std::string show_directives(const std::vector<std::string>& directives) {
  auto r = "directives " + num(directives.size());
  for (auto& d : directives) r += "'" + d + "'";
  return r;
}
static std::string show_indices(const std::vector<int>& indices) {
  auto r = std::string("active");
  for (auto i : indices) r += " " + num(i);
  return r;
}
static std::string show_key(Key key, KeyState state) { return "virtual " + num(*key) + " " + num(static_cast<int>(state)); }

using Trace = std::vector<std::string>;

struct OnServer : ClientPort::MessageHandler {
  Trace trace;
  void on_configuration_message(MultiStagePtr stages) override {
    auto r = std::string("config");
    for (auto& stage : stages->stages()) {
      r += "[";
      for (auto& c : stage->contexts()) r += show_context(c, got);
      r += "]";
    }
    trace.push_back(r);
  }
  void on_grab_device_filters_message(std::vector<GrabDeviceFilter> filters) override { trace.push_back(show_grabs(filters, got)); }
  void on_directives_message(const std::vector<std::string>& directives) override { trace.push_back(show_directives(directives)); }
  void on_active_contexts_message(const std::vector<int>& indices) override { trace.push_back(show_indices(indices)); }
  void on_set_virtual_key_state_message(Key key, KeyState state) override { trace.push_back(show_key(key, state)); }
  void on_validate_state_message() override { trace.push_back("validate"); }
  void on_request_next_key_info_message() override { trace.push_back("next key"); }
  void on_inject_input_message(const KeySequence& s) override { trace.push_back("input" + show(s)); }
  void on_inject_output_message(const KeySequence& s) override { trace.push_back("output" + show(s)); }
};
struct OnClient : ServerPort::MessageHandler {
  Trace trace;
  void on_execute_action_message(int action) override { trace.push_back("action " + num(action)); }
  void on_virtual_key_state_message(Key key, KeyState state) override { trace.push_back(show_key(key, state)); }
  void on_next_key_info_message(Key key, DeviceDesc device) override { trace.push_back("info " + num(*key) + "'" + device.name + "'" + device.id + "'"); }
};

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  g_search = &s;
  const auto size = [&]() { return s.chance(1) && s.chance(30) ? s.pick(70000) : s.chance(3) ? s.pick(600) : s.chance(30) ? 0 : s.pick(4); };
  const auto key = [&]() { return static_cast<Key>(s.chance(30) ? s.pick(0x10000) : s.pick(0x100)); };
  const auto state = [&]() { return static_cast<KeyState>(s.chance(20) ? s.pick(10) : s.pick(2)); };
  const auto number = [&]() { return s.chance(10) ? static_cast<int>(s.rng()) : s.pick(600) - 300; };
  const auto sequence = [&]() {
    auto r = KeySequence();
    for (auto i = size(); i > 0; --i)
      r.emplace_back(key(), state(), static_cast<KeyEvent::value_t>(s.chance(30) ? s.pick(4096) : 0));
    return r;
  };
  const auto string = [&]() {
    static const std::vector<std::string> given = { "", "/dev/input", "/ab/", "/ab/i", "/", "//", "a" };
    if (s.chance(40)) return s.any(given);
    auto r = std::string();
    for (auto i = size(); i > 0; --i) r.push_back(static_cast<char>(s.chance(5) ? s.pick(256) : 'a' + s.pick(26)));
    return is_regex(r) ? std::string("x") : r;
  };
  const auto filter = [&]() {
    auto r = Filter();
    if (s.chance(50)) r.string = string();
    r.invert = s.chance(30);
    if (is_regex(r.string)) r.regex.emplace("ab");
    return r;
  };
  const auto few = [&]() { return s.chance(2) ? s.pick(300) : s.pick(4); };
  while (s.more()) {
    ServerPort client;
    ClientPort server;
    client.m_connection = Connection(100);
    server.m_connection = Connection(101);
    auto expected = Trace();
    auto raw = std::string();
    const auto to_server = s.chance(75);
    for (auto n = 1 + few(); n > 0; --n) {
      g_sent.clear();
      auto ok = true;
      if (to_server) switch (s.pick(8)) {
        default: {
          auto config = Config();
          for (auto i = few(); i > 0; --i) {
            auto& f = config.grab_device_filters.emplace_back();
            static_cast<Filter&>(f) = filter();
            f.by_id = s.chance(50);
          }
          auto r = std::string("config");
          for (auto i = few(); i > 0; --i) {
            auto& c = config.contexts.emplace_back();
            c.begin_stage = s.chance(40);
            for (auto j = s.pick(4); j > 0; --j) c.inputs.push_back({ sequence(), number() });
            for (auto j = s.pick(4); j > 0; --j) c.outputs.push_back(sequence());
            for (auto j = s.pick(4); j > 0; --j) c.command_outputs.push_back({ sequence(), number() });
            c.device_filter = filter();
            c.device_id_filter = filter();
            c.modifier_filter = sequence();
            c.invert_modifier_filter = s.chance(30);
            c.fallthrough = s.chance(30);
            if (config.contexts.size() == 1) r += "[";
            else if (c.begin_stage) r += "][";
            r += show_context(c, show);
          }
          if (!config.contexts.empty()) r += "]";
          for (auto i = few(); i > 0; --i) config.server_directives.push_back(string());
          expected.push_back(show_grabs(config.grab_device_filters, show));
          expected.push_back(r);
          expected.push_back(show_directives(config.server_directives));
          ok = client.send_config(config);
          break;
        }
        case 2: {
          auto indices = std::vector<int>();
          for (auto i = size(); i > 0; --i) indices.push_back(number());
          expected.push_back(show_indices(indices));
          ok = client.send_active_contexts(indices);
          break;
        }
        case 3: expected.push_back("validate"); ok = client.send_validate_state(); break;
        case 4: expected.push_back("next key"); ok = client.send_request_next_key_info(); break;
        case 5: { const auto k = key(); const auto t = state(); expected.push_back(show_key(k, t)); ok = client.send_set_virtual_key_state(k, t); break; }
        case 6: { const auto q = sequence(); expected.push_back("input" + show(q)); ok = client.send_inject_input(q); break; }
        case 7: { const auto q = sequence(); expected.push_back("output" + show(q)); ok = client.send_inject_output(q); break; }
      }
      else switch (s.pick(3)) {
        case 0: { const auto a = number(); expected.push_back("action " + num(a)); ok = server.send_triggered_action(a); break; }
        case 1: { const auto k = key(); const auto t = state(); expected.push_back(show_key(k, t)); ok = server.send_virtual_key_state(k, t); break; }
        case 2: {
          auto d = DeviceDesc{ string(), string(), { } };
          const auto k = key();
          expected.push_back("info " + num(*k) + "'" + d.name + "'" + d.id + "'");
          ok = server.send_next_key_info(k, d);
          break;
        }
      }
      if (!ok) fail("sending '%.300s' reported a failure", expected.back().c_str());
      raw += g_sent;
    }
    auto on_server = OnServer();
    auto on_client = OnClient();
    auto& trace = to_server ? on_server.trace : on_client.trace;
    const auto style = s.pick(4);
    auto cuts = std::string();
    for (auto pos = size_t{ }; pos < raw.size(); ) {
      auto n = style == 0 ? raw.size() : style == 1 ? 1 + s.pick(9) : style == 2 ? 1 + s.pick(3000) : 1 + s.rng() % raw.size();
      if (raw.size() > 20000 && style == 1) n *= 500;
      n = std::min(n, raw.size() - pos);
      g_piece = raw.substr(pos, n);
      pos += n;
      cuts += num(n) + " ";
      const auto ok = to_server ? server.read_messages(on_server, Duration::zero()) : client.read_messages(on_client, Duration::zero());
      if (!ok) fail("reading failed after pieces of %.2000s bytes of '%.2000s'", cuts.c_str(), expected[std::min(trace.size(), expected.size() - 1)].c_str());
      if (!g_piece.empty()) fail("%d received bytes are not read", static_cast<int>(g_piece.size()));
    }
    for (auto i = size_t{ }; i < std::max(trace.size(), expected.size()); ++i) {
      const auto a = i < expected.size() ? expected[i] : "nothing", b = i < trace.size() ? trace[i] : "nothing";
      if (a != b) fail("message %d sent '%.3000s' handled '%.3000s', received in pieces of %.2000s bytes", static_cast<int>(i), a.c_str(), b.c_str(), cuts.c_str());
    }
  }
  return s.done();
}
