pub open spec fn f_virtual(k: u16) -> bool { 0xF100 <= k <= 0xF1FF }
pub uninterp spec fn key_named(name: Seq<i8>) -> u16;
pub open spec fn control_down(s: ControlPort, k: u16) -> bool { s.m_virtual_keys_down[k as int - 0xF100] }
// the key of that name, or of the first alias of that name
pub open spec fn control_key(aliases: Seq<(Seq<i8>, u16)>, name: Seq<i8>) -> u16 {
  let i = seq_find(aliases, 0, aliases.len() as int, |a: (Seq<i8>, u16)| a.0 =~= name);
  let k = if key_named(name) != 0 { key_named(name) } else if i < aliases.len() { aliases[i].1 } else { 0u16 };
  if f_virtual(k) { k } else { 0 }
}
