// sources: config client/ClientState.cpp client/ConfigFile.cpp
// flags: -Wl,--unresolved-symbols=ignore-all
// The client reports the contexts of the configuration the server has which match the focused window.
#include "client.h"
Scratch g_scratch;

// fail() does not return
#define FAIL(...) do { std::error_code e_; std::filesystem::remove_all(g_scratch.dir, e_); fail(__VA_ARGS__); } while (0)

static bool found(const Filter& f, const std::string& text, bool substring) {
  auto r = true;
  if (!f.string.empty())
    r = f.regex ? std::regex_search(text, *f.regex) : substring ? text.find(f.string) != std::string::npos : text == f.string;
  return r != f.invert;
}

int main(int argc, char** argv) {
  auto s = Search(argc, argv);
  static const std::vector<std::string> texts = { "", "one", "two", "onetwo", "one two", "One" };
  static const std::vector<std::string> filters = {
    "class=\"one\"", "class=\"two\"", "class!=\"one\"", "title=\"one\"", "title=\"two\"", "title!=\"one\"",
    "title=/^one/i", "class=/o/", "path=\"one\"", "path!=\"two\"", "path=/two$/", "class=\"two\" title=\"one\"",
    "title=\"one\" path=\"one\"", "default" };
  while (s.more()) {
    g_rec = { };
    ClientState client;
    const auto names = std::vector<std::string>{ g_scratch.dir + "/a.conf", g_scratch.dir + "/b.conf", g_scratch.dir + "/c.conf" };
    auto log = std::string();
    const auto config = [&]() {
      auto t = std::string();
      const auto mapping = [&]() {
        t += std::string("A >> ") + (s.chance(50) ? "$(cmd" + std::to_string(s.pick(1000)) + ")" : std::string("B")) + "\n";
      };
      for (auto i = s.pick(2); i > 0; --i) mapping();
      for (auto i = s.pick(5); i > 0; --i) {
        t += "[" + s.any(filters) + "]\n";
        for (auto j = s.pick(3); j > 0; --j) mapping();
      }
      t += "C >> $(last)\n";
      return t;
    };
    const auto write = [&](int i) {
      const auto bad = s.chance(30), missing = s.chance(10);
      const auto text = bad ? std::string("A > B C >>\n") : config();
      std::filesystem::remove(names[i]);
      if (!missing) { auto f = std::ofstream(names[i]); f << text; }
      log += "; " + std::string(missing ? "no file " : "file ") + static_cast<char>('a' + i) + " [" + (missing ? "" : text) + "]";
    };
    const auto verify = [&]() {
      if (!g_rec.config) return;
      auto expected = std::vector<int>();
      if (client.is_active())
        for (auto i = 0u; i < g_rec.config->contexts.size(); ++i) {
          const auto& c = g_rec.config->contexts[i];
          if (found(c.window_class_filter, g_rec.window_class, false) && found(c.window_title_filter, g_rec.window_title, true)
              && found(c.window_path_filter, g_rec.window_path, true))
            expected.push_back(static_cast<int>(i));
        }
      if (g_rec.contexts != expected) {
        auto a = std::string(), b = std::string();
        for (auto i : g_rec.contexts) a += " " + std::to_string(i);
        for (auto i : expected) b += " " + std::to_string(i);
        FAIL("history:%s: reported contexts%s instead of%s", log.c_str(), a.c_str(), b.c_str());
      }
      const auto n = static_cast<int>(g_rec.config->actions.size());
      const auto action = s.pick(n + 2) - 1;
      g_rec.executed.clear();
      static_cast<ServerPort::MessageHandler&>(client).on_execute_action_message(action);
      if (action < 0 || action >= n ? !g_rec.executed.empty() :
          g_rec.executed != std::vector<std::string>{ g_rec.config->actions[action].terminal_command })
        FAIL("history:%s: action %d executed \"%s\"", log.c_str(), action, g_rec.executed.empty() ? "" : g_rec.executed[0].c_str());
    };
    for (auto i = 0; i < 3; ++i) write(i);
    client.load_config(names[0]);
    client.send_config();
    auto active = true;
    for (auto i = 0; i < 12; ++i) {
      switch (s.pick(7)) {
        case 0: write(s.pick(3)); break;
        case 1: case 2: {
          const auto k = s.pick(3);
          log += std::string("; set-config ") + static_cast<char>('a' + k);
          const auto ok = static_cast<ControlPort::MessageHandler&>(client).on_set_config_file_message(names[k]);
          log += ok ? " succeeded" : " failed";
          break;
        }
        case 3: log += "; reload"; client.update_config(false); client.send_config(); break;
        case 4: {
          log += "; toggle active";
          client.toggle_active();
          active = !active;
          if (client.is_active() != active) FAIL("history:%s: not toggled", log.c_str());
          break;
        }
        default: {
          g_rec.window_class = s.any(texts);
          g_rec.window_title = s.any(texts);
          g_rec.window_path = s.any(texts);
          g_rec.window_changed = true;
          log += "; focus " + g_rec.window_class + "/" + g_rec.window_title + "/" + g_rec.window_path;
        }
      }
      if (client.update_active_contexts())
        client.send_active_contexts();
      verify();
    }
  }
  return s.done();
}
