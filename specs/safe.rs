// ---- the input event which triggered an output ----
pub open spec fn last_hard(s: Seq<KeyEvent>, n: int) -> int decreases n {
  if n <= 0 { -1 } else if s[n - 1].state == 0 || s[n - 1].state == 1 { n - 1 } else { last_hard(s, n - 1) }
}
pub open spec fn trigger_event(t: Trig) -> KeyEvent {
  match t {
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V1(e) => e,
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V2(k) => KeyEvent { key: k, state: 1, value: 0 },
    Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16::V0(p) => {
      let v = p->Some_0.v;
      if last_hard(v, v.len() as int) >= 0 { v[last_hard(v, v.len() as int)] } else { v.last() }
    },
  }
}
// what keeps every access of the mapping in range
pub open spec fn all_keys() -> Keys { |k: u16| true }
pub open spec fn trig_ok(t: Trig) -> bool {
  t is V0 ==> t->V0_0 is Some && t->V0_0->Some_0.v.len() > 0
}
pub open spec fn input_ok(c: Stage_Context, i: Stage_Input) -> bool {
  i.input.len() > 0 && (i.input[0].state == 5 ==> i.input.len() > 1) && (i.output_index >= 0 ==> i.output_index < c.outputs.len())
}
#[verifier::opaque]
pub open spec fn sorted_commands(c: Stage_Context) -> bool {
  forall|i: int, j: int| 0 <= i < j < c.command_outputs.len() ==> (#[trigger] c.command_outputs[i]).index >= (#[trigger] c.command_outputs[j]).index
}
// states which make sense in an output
#[verifier::opaque]
pub open spec fn out_ok(s: Seq<KeyEvent>) -> bool {
  forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).state <= 2 || (s[i].state == 6 && s[i].key != 0xF000)
}
pub open spec fn ptr_ok(p: Option<Ptr<Seq<KeyEvent>>>) -> bool { p is Some ==> out_ok(p->Some_0.v) }
#[verifier::opaque]
pub open spec fn outputs_ok(c: Stage_Context) -> bool {
  &&& c.outputs.len() < 0x7fffffff
  &&& forall|i: int| 0 <= i < c.outputs.len() ==> out_ok(#[trigger] c.outputs[i])
  &&& forall|i: int| 0 <= i < c.command_outputs.len() ==> out_ok((#[trigger] c.command_outputs[i]).output)
}
#[verifier::opaque]
pub open spec fn release_ok(d: Seq<Stage_OutputOnRelease>) -> bool {
  forall|i: int| 0 <= i < d.len() ==> out_ok((#[trigger] d[i]).sequence)
}
pub open spec fn event_ok(e: KeyEvent) -> bool {
  e.state <= 1 && ((0 < e.key && e.key <= 0xEFFF) || (0xF100 <= e.key && e.key <= 0xF1FF) || e.key == 0xF001 || e.key == 0xF003)
}
pub open spec fn context_ok(c: Stage_Context) -> bool {
  sorted_commands(c) && outputs_ok(c) && forall|i: int| 0 <= i < c.inputs.len() ==> input_ok(c, #[trigger] c.inputs[i])
}
// a configuration as the parser makes it
#[verifier::opaque]
pub open spec fn config_ok(cs: Seq<Stage_Context>) -> bool {
  &&& cs.len() < 0x7fffffff
  &&& cs.len() > 0 ==> !cs.last().fallthrough
  &&& forall|i: int| 0 <= i < cs.len() ==> context_ok(#[trigger] cs[i])
}
#[verifier::opaque]
pub open spec fn in_range(s: Seq<i32>, n: nat) -> bool {
  s.len() < 0x7fffffff && forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n
}
#[verifier::opaque]
pub open spec fn down_ok(d: Seq<Stage_OutputDown>) -> bool {
  forall|i: int| 0 <= i < d.len() ==> trig_ok((#[trigger] d[i]).trigger)
}
pub open spec fn ctx_safe(s: Stage) -> bool {
  &&& config_ok(s.m_contexts)
  &&& in_range(s.m_active_contexts, s.m_contexts.len())
  &&& in_range(s.m_prev_active_contexts, s.m_contexts.len())
  &&& in_range(s.m_active_client_contexts, s.m_contexts.len())
}
pub open spec fn safe(s: Stage) -> bool {
  ctx_safe(s) && down_ok(s.m_output_down) && release_ok(s.m_output_on_release) && s.m_exit_sequence_position <= 3 && recorded(all_keys(), s.m_history)
}
pub broadcast proof fn lemma_config_at(cs: Seq<Stage_Context>, i: int)
  requires #[trigger] config_ok(cs), 0 <= i < cs.len()
  ensures context_ok(#[trigger] cs[i]), cs.len() < 0x7fffffff, cs[i].fallthrough ==> i + 1 < cs.len()
{ reveal(config_ok); }
pub broadcast proof fn lemma_config_len(cs: Seq<Stage_Context>)
  requires #[trigger] config_ok(cs)
  ensures cs.len() < 0x7fffffff
{ reveal(config_ok); }
pub broadcast proof fn lemma_range_at(s: Seq<i32>, n: nat, i: int)
  requires #[trigger] in_range(s, n), 0 <= i < s.len()
  ensures 0 <= #[trigger] s[i] < n
{ reveal(in_range); }
pub broadcast proof fn lemma_range_len(s: Seq<i32>, n: nat)
  requires #[trigger] in_range(s, n)
  ensures s.len() < 0x7fffffff
{ reveal(in_range); }
pub broadcast proof fn lemma_range_empty(s: Seq<i32>, n: nat)
  requires s.len() == 0
  ensures #[trigger] in_range(s, n)
{ reveal(in_range); }
pub broadcast proof fn lemma_range_push(s: Seq<i32>, n: nat, x: i32)
  requires in_range(s, n), 0 <= x < n, s.len() + 1 < 0x7fffffff
  ensures #[trigger] in_range(s.push(x), n)
{ reveal(in_range); }
pub broadcast proof fn lemma_down_at(d: Seq<Stage_OutputDown>, i: int)
  requires #[trigger] down_ok(d), 0 <= i < d.len()
  ensures trig_ok((#[trigger] d[i]).trigger)
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_push(d: Seq<Stage_OutputDown>, x: Stage_OutputDown)
  requires down_ok(d), trig_ok(x.trigger)
  ensures #[trigger] down_ok(d.push(x))
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_update(d: Seq<Stage_OutputDown>, i: int, x: Stage_OutputDown)
  requires down_ok(d), trig_ok(x.trigger), 0 <= i < d.len()
  ensures #[trigger] down_ok(d.update(i, x))
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_remove(d: Seq<Stage_OutputDown>, i: int)
  requires down_ok(d), 0 <= i < d.len()
  ensures #[trigger] down_ok(d.remove(i))
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_part(d: Seq<Stage_OutputDown>, i: int, j: int)
  requires down_ok(d), 0 <= i <= j <= d.len()
  ensures #[trigger] down_ok(d.subrange(i, j))
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_add(d: Seq<Stage_OutputDown>, e: Seq<Stage_OutputDown>)
  requires down_ok(d), down_ok(e)
  ensures #[trigger] down_ok(d.add(e))
{ reveal(down_ok); }
pub broadcast proof fn lemma_down_filter(d: Seq<Stage_OutputDown>, p: spec_fn(Stage_OutputDown) -> bool)
  requires down_ok(d)
  ensures #[trigger] down_ok(seq_filter(d, p))
{
  reveal(down_ok);
  lemma_seq_filter(d, p);
}
pub broadcast proof fn lemma_release_filter(d: Seq<Stage_OutputOnRelease>, p: spec_fn(Stage_OutputOnRelease) -> bool)
  requires release_ok(d)
  ensures #[trigger] release_ok(seq_filter(d, p))
{
  reveal(release_ok);
  lemma_seq_filter(d, p);
}
pub broadcast proof fn lemma_release_at(d: Seq<Stage_OutputOnRelease>, i: int)
  requires #[trigger] release_ok(d), 0 <= i < d.len()
  ensures out_ok((#[trigger] d[i]).sequence)
{ reveal(release_ok); }
pub broadcast proof fn lemma_release_push(d: Seq<Stage_OutputOnRelease>, x: Stage_OutputOnRelease)
  requires release_ok(d), out_ok(x.sequence)
  ensures #[trigger] release_ok(d.push(x))
{ reveal(release_ok); }
pub broadcast proof fn lemma_release_remove(d: Seq<Stage_OutputOnRelease>, i: int)
  requires release_ok(d), 0 <= i < d.len()
  ensures #[trigger] release_ok(d.remove(i))
{ reveal(release_ok); }
pub broadcast proof fn lemma_out_at(s: Seq<KeyEvent>, i: int)
  requires #[trigger] out_ok(s), 0 <= i < s.len()
  ensures (#[trigger] s[i]).state <= 2 || (s[i].state == 6 && s[i].key != 0xF000)
{ reveal(out_ok); }
pub broadcast proof fn lemma_out_part(s: Seq<KeyEvent>, i: int, j: int)
  requires out_ok(s), 0 <= i <= j <= s.len()
  ensures #[trigger] out_ok(s.subrange(i, j))
{ reveal(out_ok); }
pub broadcast proof fn lemma_out_of(c: Stage_Context, i: int)
  requires outputs_ok(c), 0 <= i < c.outputs.len()
  ensures out_ok(#[trigger] c.outputs[i]), c.outputs.len() < 0x7fffffff
{ reveal(outputs_ok); }
pub broadcast proof fn lemma_command_of(c: Stage_Context, i: int)
  requires outputs_ok(c), 0 <= i < c.command_outputs.len()
  ensures out_ok((#[trigger] c.command_outputs[i]).output)
{ reveal(outputs_ok); }
pub broadcast proof fn lemma_out_number(c: Stage_Context)
  requires #[trigger] outputs_ok(c)
  ensures c.outputs.len() < 0x7fffffff
{ reveal(outputs_ok); }
// searching something which is equal to the last
pub broadcast proof fn lemma_find_last(s: Seq<KeyEvent>, hi: int, p: spec_fn(KeyEvent) -> bool)
  requires 0 < hi, hi == s.len(), p(s[hi - 1])
  ensures #[trigger] seq_find(s, 0, hi, p) < hi
{ lemma_seq_find(s, 0, hi, p); }
pub open spec fn bits_only(a: Stage_Context, b: Stage_Context) -> bool {
  b == (Stage_Context { matching_device_bits: b.matching_device_bits, ..a })
}
pub proof fn lemma_config_same(a: Seq<Stage_Context>, b: Seq<Stage_Context>)
  requires config_ok(a), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> bits_only(a[i], #[trigger] b[i])
  ensures config_ok(b)
{
  reveal(config_ok); reveal(outputs_ok); reveal(sorted_commands);
  assert forall|i: int| 0 <= i < b.len() implies context_ok(#[trigger] b[i]) by {
    assert(context_ok(a[i]));
    assert(b[i].inputs == a[i].inputs && b[i].outputs == a[i].outputs && b[i].command_outputs == a[i].command_outputs);
  }
}
pub broadcast group safe_lemmas {
  lemma_config_at, lemma_config_len, lemma_range_at, lemma_range_len, lemma_range_empty, lemma_range_push,
  lemma_down_at, lemma_down_push, lemma_down_update, lemma_down_remove, lemma_down_part,
  lemma_down_add, lemma_down_filter, lemma_release_at, lemma_release_push, lemma_release_remove, lemma_release_filter,
  lemma_out_at, lemma_out_part, lemma_out_of, lemma_out_number, lemma_command_of,
}
pub open spec fn same_keys(a: Seq<KeyEvent>, b: Seq<KeyEvent>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).key == a[i].key
}
