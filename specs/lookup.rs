// ---- filters ----
pub uninterp spec fn regex_found(text: Seq<i8>, regex: Opaque) -> bool;

pub open spec fn filter_found(f: Filter, text: Seq<i8>, substring: bool) -> bool {
  if f.string_.len() == 0 { true }
  else if f.regex is Some { regex_found(text, f.regex.unwrap()) }
  else if substring { str_find(text, f.string_, 0) != 0xffff_ffff_ffff_ffff }
  else { text == f.string_ }
}
pub open spec fn filter_match(f: Filter, text: Seq<i8>, substring: bool) -> bool { filter_found(f, text, substring) != f.invert }

// ---- devices ----
pub open spec fn dev_bit(bits: u64, d: int) -> bool { (bits >> (d as u64)) & 1u64 != 0 }
pub open spec fn device_ok(c: Stage_Context, d: i32) -> bool {
  if d == -2 { true } else if d == -1 || d >= 64 { c.matching_device_bits == 0xffff_ffff_ffff_ffff }
  else { dev_bit(c.matching_device_bits, d as int) }
}
pub open spec fn has_filter(c: Stage_Context) -> bool { c.device_filter.string_.len() != 0 || c.device_id_filter.string_.len() != 0 }
pub open spec fn desc_ok(c: Stage_Context, d: DeviceDesc) -> bool {
  filter_match(c.device_filter, d.name, false) && filter_match(c.device_id_filter, d.id, false)
}
#[verifier::opaque]
pub open spec fn bits_ok(bits: u64, c: Stage_Context, descs: Seq<DeviceDesc>, n: int) -> bool {
  forall|d: int| 0 <= d < 64 ==> (#[trigger] dev_bit(bits, d) <==> d < n && desc_ok(c, descs[d]))
}
pub open spec fn evaluated(c: Stage_Context, was: Stage_Context, descs: Seq<DeviceDesc>) -> bool {
  &&& c == (Stage_Context { matching_device_bits: c.matching_device_bits, ..was })
  &&& if has_filter(c) { bits_ok(c.matching_device_bits, c, descs, descs.len() as int) } else { c.matching_device_bits == 0xffff_ffff_ffff_ffff }
}
pub open spec fn nth_bit(b: int, n: int) -> bool { b == (if n < 64 { (1u64 << (n as u64)) as int } else { 0 }) }

pub broadcast proof fn lemma_bits_none(c: Stage_Context, descs: Seq<DeviceDesc>)
  ensures #[trigger] bits_ok(0u64, c, descs, 0)
{
  reveal(bits_ok);
  assert forall|d: int| 0 <= d < 64 implies !#[trigger] dev_bit(0u64, d) by {
    let e = d as u64;
    assert((0u64 >> e) & 1u64 == 0) by (bit_vector);
  }
}
pub proof fn lemma_first_bit() ensures nth_bit(1, 0) { assert(1u64 << 0u64 == 1u64) by (bit_vector); }
pub broadcast proof fn lemma_bit_next(b: int, n: int)
  requires nth_bit(b, n), 0 <= n
  ensures #[trigger] nth_bit(((b as u64) << 1u64) as int, n + 1)
{
  if n < 64 {
    let m = n as u64;
    if n < 63 {
      assert((1u64 << m) << 1u64 == 1u64 << ((m + 1) as u64)) by (bit_vector) requires m < 63;
    } else {
      assert((1u64 << 63u64) << 1u64 == 0u64) by (bit_vector);
    }
  } else {
    assert(0u64 << 1u64 == 0u64) by (bit_vector);
  }
}
pub broadcast proof fn lemma_bits_with(bits: u64, b: int, c: Stage_Context, descs: Seq<DeviceDesc>, n: int)
  requires bits_ok(bits, c, descs, n), nth_bit(b, n), 0 <= n < descs.len(), desc_ok(c, descs[n])
  ensures #[trigger] bits_ok(bits | (b as u64), c, descs, n + 1)
{
  reveal(bits_ok);
  assert forall|d: int| 0 <= d < 64 implies (#[trigger] dev_bit(bits | (b as u64), d) <==> d < n + 1 && desc_ok(c, descs[d])) by {
    let e = d as u64;
    assert(dev_bit(bits, d) <==> d < n && desc_ok(c, descs[d]));
    if n < 64 {
      let m = n as u64;
      assert(((bits | (1u64 << m)) >> e) & 1u64 != 0 <==> (bits >> e) & 1u64 != 0 || e == m) by (bit_vector) requires e < 64, m < 64;
    } else {
      assert(bits | 0u64 == bits) by (bit_vector);
    }
  }
}
pub broadcast proof fn lemma_bits_without(bits: u64, c: Stage_Context, descs: Seq<DeviceDesc>, n: int)
  requires bits_ok(bits, c, descs, n), 0 <= n < descs.len(), !desc_ok(c, descs[n])
  ensures #[trigger] bits_ok(bits, c, descs, n + 1)
{
  reveal(bits_ok);
}
// the bits only depend on the filters
pub broadcast proof fn lemma_bits_same(bits: u64, c: Stage_Context, d: Stage_Context, descs: Seq<DeviceDesc>, n: int)
  requires #[trigger] bits_ok(bits, c, descs, n), c.device_filter == d.device_filter, c.device_id_filter == d.device_id_filter
  ensures #[trigger] bits_ok(bits, d, descs, n)
{
  reveal(bits_ok);
  assert forall|x: int| 0 <= x < 64 implies (#[trigger] dev_bit(bits, x) <==> x < n && desc_ok(d, descs[x])) by {
    assert(dev_bit(bits, x) <==> x < n && desc_ok(c, descs[x]));
  }
}
pub broadcast group device_lemmas { lemma_bits_none, lemma_bit_next, lemma_bits_with, lemma_bits_without, lemma_bits_same }

// ---- output of a mapping ----
pub open spec fn commands_sorted(c: Stage_Context) -> bool {
  forall|i: int, j: int| 0 <= i < j < c.command_outputs.len() ==> (#[trigger] c.command_outputs[i]).index >= (#[trigger] c.command_outputs[j]).index
}
pub open spec fn lookup_ok(s: Stage) -> bool {
  &&& config_ok(s.m_contexts)
  &&& forall|i: int| 0 <= i < s.m_contexts.len() ==> commands_sorted(#[trigger] s.m_contexts[i])
  &&& forall|i: int| 0 <= i < s.m_active_contexts.len() ==> 0 <= #[trigger] s.m_active_contexts[i] < s.m_contexts.len()
  &&& s.m_active_contexts.len() < 0x7fffffff
}
pub open spec fn outputs_ok(s: Stage) -> bool {
  forall|i: int, j: int| 0 <= i < s.m_contexts.len() && 0 <= j < s.m_contexts[i].inputs.len() ==> (#[trigger] s.m_contexts[i].inputs[j]).output_index < s.m_contexts[i].outputs.len()
}
pub open spec fn act(s: Stage, n: int) -> Stage_Context { s.m_contexts[s.m_active_contexts[n] as int] }
pub open spec fn shared(cs: Seq<Stage_Context>, a: Seq<i32>, n: int) -> Stage_Context { cs[fall(cs, a[n] as int)] }
// output a context defines for a command
pub open spec fn command_at(c: Seq<Stage_CommandOutput>, index: i32, n: int) -> Option<Seq<KeyEvent>> decreases n {
  if n <= 0 { None } else if c[n - 1].index == index { Some(c[n - 1].output) } else { command_at(c, index, n - 1) }
}
pub broadcast proof fn lemma_command_at(c: Seq<Stage_CommandOutput>, index: i32, n: int)
  requires n <= c.len()
  ensures
    #[trigger] command_at(c, index, n) is None ==> forall|k: int| 0 <= k < n ==> (#[trigger] c[k]).index != index,
    command_at(c, index, n) is Some ==> exists|k: int| 0 <= k < n && (#[trigger] c[k]).index == index && command_at(c, index, n) == Some(c[k].output)
      && forall|l: int| k < l < n ==> (#[trigger] c[l]).index != index
  decreases n
{
  if n > 0 && c[n - 1].index != index { lemma_command_at(c, index, n - 1); }
}
// the last of the first n active contexts which defines the command
pub open spec fn command_output(cs: Seq<Stage_Context>, a: Seq<i32>, index: i32, n: int) -> Option<Seq<KeyEvent>> decreases n {
  if n <= 0 { None }
  else {
    let o = command_at(shared(cs, a, n - 1).command_outputs, index, shared(cs, a, n - 1).command_outputs.len() as int);
    if o is Some { o } else { command_output(cs, a, index, n - 1) }
  }
}
pub open spec fn output_of(s: Stage, c: Stage_Context, index: i32) -> Option<Seq<KeyEvent>> {
  if index >= 0 { Some(c.outputs[index as int]) } else { command_output(s.m_contexts, s.m_active_contexts, index, s.m_active_contexts.len() as int) }
}
pub open spec fn pointee(r: Option<Ptr<Seq<KeyEvent>>>) -> Option<Seq<KeyEvent>> { if r is Some { Some(r.unwrap().v) } else { None } }

// ---- first mapping ----
pub uninterp spec fn mk_result(expression: Seq<KeyEvent>, sequence: Seq<KeyEvent>) -> i32;

pub open spec fn outcome(s: Stage, first: bool, q: Seq<KeyEvent>, d: i32, n: int, j: int) -> i32 {
  let c = act(s, n);
  let input = c.inputs[j].input;
  let direct = input.len() > 0 && input[0].state == 5;
  if !device_ok(c, d) || (direct && (!first || s.m_history.len() == 0 || d == -2)) { 0i32 }
  else {
    let r = mk_result(input, if direct { s.m_history } else { q });
    if r == 1 && first && !direct { 1i32 } else if r == 2 && output_of(s, c, c.inputs[j].output_index) is Some { 2i32 } else { 0i32 }
  }
}
#[verifier::opaque]
pub open spec fn none_of(s: Stage, first: bool, q: Seq<KeyEvent>, d: i32, n: int, m: int) -> bool {
  forall|j: int| 0 <= j < m ==> #[trigger] outcome(s, first, q, d, n, j) == 0
}
#[verifier::opaque]
pub open spec fn none_before(s: Stage, first: bool, q: Seq<KeyEvent>, d: i32, n: int) -> bool {
  forall|k: int| 0 <= k < n ==> none_of(s, first, q, d, k, #[trigger] act(s, k).inputs.len() as int)
}
pub open spec fn chosen(s: Stage, first: bool, q: Seq<KeyEvent>, d: i32, n: int, j: int,
    r: (i32, Option<Ptr<Seq<KeyEvent>>>, Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16, i32)) -> bool {
  &&& 0 <= n < s.m_active_contexts.len() && 0 <= j < act(s, n).inputs.len()
  &&& none_before(s, first, q, d, n) && none_of(s, first, q, d, n, j)
  &&& outcome(s, first, q, d, n, j) == r.0
  &&& r.3 == s.m_active_contexts[n]
  &&& r.2 is V0 && r.2->V0_0 is Some && r.2->V0_0.unwrap().v == act(s, n).inputs[j].input
  &&& r.0 == 2 ==> pointee(r.1) == output_of(s, act(s, n), act(s, n).inputs[j].output_index)
}
pub open spec fn lookup(s: Stage, first: bool, q: Seq<KeyEvent>, d: i32,
    r: (i32, Option<Ptr<Seq<KeyEvent>>>, Variant_Option_Ptr_Seq_KeyEvent____KeyEvent_u16, i32)) -> bool {
  if r.0 == 0 { none_before(s, first, q, d, s.m_active_contexts.len() as int) }
  else { exists|n: int, j: int| #[trigger] none_of(s, first, q, d, n, j) && chosen(s, first, q, d, n, j, r) }
}
