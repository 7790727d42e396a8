// ---- filters ----
pub uninterp spec fn regex_found(text: Seq<i8>, regex: Opaque) -> bool;
pub uninterp spec fn fw_class(w: FocusedWindow) -> Seq<i8>;
pub uninterp spec fn fw_title(w: FocusedWindow) -> Seq<i8>;
pub uninterp spec fn fw_path(w: FocusedWindow) -> Seq<i8>;

pub open spec fn filter_found(f: Filter, text: Seq<i8>, substring: bool) -> bool {
  if f.string_.len() == 0 { true }
  else if f.regex is Some { regex_found(text, f.regex.unwrap()) }
  else if substring { str_find(text, f.string_, 0) != 0xffff_ffff_ffff_ffff }
  else { text == f.string_ }
}
pub open spec fn filter_match(f: Filter, text: Seq<i8>, substring: bool) -> bool { filter_found(f, text, substring) != f.invert }

pub open spec fn window_match(c: Config_Context, class: Seq<i8>, title: Seq<i8>, path: Seq<i8>) -> bool {
  filter_match(c.window_class_filter, class, false) && filter_match(c.window_title_filter, title, true)
    && filter_match(c.window_path_filter, path, true)
}
pub open spec fn focused(c: Config_Context, w: FocusedWindow) -> bool { window_match(c, fw_class(w), fw_title(w), fw_path(w)) }

// the indices of the first n contexts which match the focused window
pub open spec fn matching(cs: Seq<Config_Context>, w: FocusedWindow, n: int) -> Seq<i32> decreases n {
  if n <= 0 { Seq::empty() }
  else if focused(cs[n - 1], w) { matching(cs, w, n - 1).push((n - 1) as i32) }
  else { matching(cs, w, n - 1) }
}
pub open spec fn current(s: ClientState) -> Seq<i32> {
  matching(s.m_config_file.m_config.contexts, s.m_focused_window, s.m_config_file.m_config.contexts.len() as int)
}
// the contexts which were last determined belong to the configuration and the window
pub open spec fn determined(s: ClientState) -> bool {
  s.m_active_contexts.len() == 0 || s.m_active && s.m_active_contexts == current(s)
}
// the server has the client's configuration
pub open spec fn in_step(s: ClientState) -> bool { s.g_config == Some(s.m_config_file.m_config) }
pub open spec fn fits(c: Config) -> bool { c.contexts.len() < 0x7fff_ffff && c.actions.len() < 0x7fff_ffff }
pub open spec fn all_fit(s: ClientState) -> bool {
  fits(s.m_config_file.m_config) && forall|i: int| 0 <= i < s.m_recent_config_files.len() ==> fits((#[trigger] s.m_recent_config_files[i]).m_config)
}
