// the bytes of a trivially copyable value
pub uninterp spec fn size_of<T>() -> nat;
pub uninterp spec fn bytes_of<T>(v: T) -> Seq<i8>;
pub uninterp spec fn of_bytes<T>(b: Seq<i8>) -> T;
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_u32(v: u32)
  ensures #![trigger bytes_of::<u32>(v)] bytes_of::<u32>(v).len() == size_of::<u32>(), of_bytes::<u32>(bytes_of::<u32>(v)) == v { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_i32(v: i32)
  ensures #![trigger bytes_of::<i32>(v)] bytes_of::<i32>(v).len() == size_of::<i32>(), of_bytes::<i32>(bytes_of::<i32>(v)) == v { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_u16(v: u16)
  ensures #![trigger bytes_of::<u16>(v)] bytes_of::<u16>(v).len() == size_of::<u16>(), of_bytes::<u16>(bytes_of::<u16>(v)) == v { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_u8(v: u8)
  ensures #![trigger bytes_of::<u8>(v)] bytes_of::<u8>(v).len() == size_of::<u8>(), of_bytes::<u8>(bytes_of::<u8>(v)) == v { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_bool(v: bool)
  ensures #![trigger bytes_of::<bool>(v)] bytes_of::<bool>(v).len() == size_of::<bool>(), of_bytes::<bool>(bytes_of::<bool>(v)) == v { }
#[verifier::external_body]
pub broadcast proof fn axiom_bytes_event(v: KeyEvent)
  ensures #![trigger bytes_of::<KeyEvent>(v)] bytes_of::<KeyEvent>(v).len() == size_of::<KeyEvent>(), of_bytes::<KeyEvent>(bytes_of::<KeyEvent>(v)) == v { }
pub open spec fn seq_splice<T>(s: Seq<T>, i: int, b: Seq<T>) -> Seq<T> {
  s.subrange(0, i).add(b).add(s.subrange(i + b.len(), s.len() as int))
}
pub broadcast proof fn lemma_append<T>(s: Seq<T>, n: int, x: T, b: Seq<T>)
  ensures n == s.len() + b.len() ==> #[trigger] seq_splice(seq_resize(s, n, x), s.len() as int, b) == s.add(b)
{
  if n == s.len() + b.len() { assert(seq_splice(seq_resize(s, n, x), s.len() as int, b) =~= s.add(b)); }
}
pub broadcast proof fn lemma_whole<T>(s: Seq<T>, n: int)
  ensures n == s.len() ==> #[trigger] s.subrange(0, n) == s
{
  if n == s.len() { assert(s.subrange(0, n) =~= s); }
}
pub broadcast proof fn lemma_replace<T>(s: Seq<T>, b: Seq<T>)
  ensures b.len() == s.len() ==> #[trigger] seq_splice(s, 0, b) == b
{
  if b.len() == s.len() { assert(seq_splice(s, 0, b) =~= b); }
}
pub broadcast proof fn lemma_last<T>(s: Seq<T>, a: T, n: int, b: T)
  ensures n == s.len() ==> #[trigger] s.push(a).update(n, b) == s.push(b)
{
  if n == s.len() { assert(s.push(a).update(n, b) =~= s.push(b)); }
}
pub broadcast proof fn lemma_none<T>(s: Seq<T>, i: int)
  ensures 0 <= i <= s.len() ==> #[trigger] s.subrange(i, i) == Seq::<T>::empty()
{
  if 0 <= i <= s.len() { assert(s.subrange(i, i) =~= Seq::<T>::empty()); }
}
pub broadcast proof fn lemma_blank<T>(n: nat, x: T)
  ensures n == 0 ==> #[trigger] seq_fill(n, x) == Seq::<T>::empty()
{
  if n == 0 { assert(seq_fill(n, x) =~= Seq::<T>::empty()); }
}
pub broadcast proof fn lemma_grow<T>(s: Seq<T>, i: int, v: T, n: int)
  ensures 0 <= i < s.len() && n == i + 1 ==> #[trigger] s.update(i, v).subrange(0, n) == s.subrange(0, i).push(v)
{
  if 0 <= i < s.len() && n == i + 1 { assert(s.update(i, v).subrange(0, n) =~= s.subrange(0, i).push(v)); }
}
pub broadcast proof fn lemma_below<T>(s: Seq<T>, i: int, v: T, n: int)
  ensures 0 <= n <= i < s.len() ==> #[trigger] s.update(i, v).subrange(0, n) == s.subrange(0, n)
{
  if 0 <= n <= i < s.len() { assert(s.update(i, v).subrange(0, n) =~= s.subrange(0, n)); }
}
pub broadcast proof fn lemma_rest<T>(s: Seq<T>, i: int, v: T)
  ensures 0 <= i && i == s.len() - 1 ==> #[trigger] s.update(i, v).drop_last() == s.drop_last()
{
  if 0 <= i && i == s.len() - 1 { assert(s.update(i, v).drop_last() =~= s.drop_last()); }
}
pub broadcast proof fn lemma_pushed<T>(s: Seq<T>, v: T)
  ensures #[trigger] s.push(v).drop_last() == s
{
  assert(s.push(v).drop_last() =~= s);
}
pub open spec fn same<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && (a.len() > 0 ==> a.drop_last() == b.drop_last() && a.last() == b.last()) }
pub broadcast proof fn lemma_same<T>(a: Seq<T>, b: Seq<T>)
  ensures #[trigger] same(a, b) ==> a == b
{
  if same(a, b) {
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i < a.len() - 1 { assert(a.drop_last()[i] == b.drop_last()[i]); } }
    assert(a =~= b);
  }
}
pub broadcast proof fn lemma_front<T>(s: Seq<T>, n: int)
  ensures 0 <= n <= s.len() ==> #[trigger] seq_erase(s, 0, n) == s.subrange(n, s.len() as int)
{
  if 0 <= n <= s.len() { assert(seq_erase(s, 0, n) =~= s.subrange(n, s.len() as int)); }
}
pub broadcast group wire_top { lemma_rest, lemma_pushed, lemma_same }
pub broadcast group wire_lemmas { axiom_bytes_u32, axiom_bytes_i32, axiom_bytes_u16, axiom_bytes_bool, axiom_bytes_event, axiom_bytes_u8, lemma_append, lemma_whole, lemma_replace, lemma_none, lemma_blank, lemma_grow, lemma_below, lemma_front }

pub open spec fn len32(n: nat) -> u32 { wrap_u32(n as int) as u32 }
// ---- what is written: the buffer after appending
pub open spec fn put<T>(b: Seq<i8>, v: T) -> Seq<i8> { b.add(bytes_of::<T>(v)) }
pub open spec fn put_string(b: Seq<i8>, v: Seq<i8>) -> Seq<i8> { put::<u32>(b, len32(v.len())).add(v) }
pub open spec fn put_filter(b: Seq<i8>, v: Filter) -> Seq<i8> { put::<bool>(put_string(b, v.string_), v.invert) }
pub open spec fn put_events(b: Seq<i8>, v: Seq<KeyEvent>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put::<KeyEvent>(put_events(b, v, n - 1), v[n - 1]) }
}
pub open spec fn put_sequence(b: Seq<i8>, v: Seq<KeyEvent>) -> Seq<i8> { put_events(put::<u32>(b, len32(v.len())), v, v.len() as int) }
pub open spec fn put_inputs(b: Seq<i8>, v: Seq<Config_Input>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put::<i32>(put_sequence(put_inputs(b, v, n - 1), v[n - 1].input), v[n - 1].output_index) }
}
pub open spec fn put_outputs(b: Seq<i8>, v: Seq<Seq<KeyEvent>>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put_sequence(put_outputs(b, v, n - 1), v[n - 1]) }
}
pub open spec fn put_commands(b: Seq<i8>, v: Seq<Config_CommandOutput>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put::<i32>(put_sequence(put_commands(b, v, n - 1), v[n - 1].output), v[n - 1].index) }
}
pub open spec fn put_context(b: Seq<i8>, v: Config_Context) -> Seq<i8> {
  let b = put::<bool>(b, v.begin_stage);
  let b = put_inputs(put::<u32>(b, len32(v.inputs.len())), v.inputs, v.inputs.len() as int);
  let b = put_outputs(put::<u32>(b, len32(v.outputs.len())), v.outputs, v.outputs.len() as int);
  let b = put_commands(put::<u32>(b, len32(v.command_outputs.len())), v.command_outputs, v.command_outputs.len() as int);
  let b = put_filter(b, v.device_filter);
  let b = put_filter(b, v.device_id_filter);
  let b = put_sequence(b, v.modifier_filter);
  let b = put::<bool>(b, v.invert_modifier_filter);
  put::<bool>(b, v.fallthrough)
}
pub open spec fn put_contexts(b: Seq<i8>, v: Seq<Config_Context>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put_context(put_contexts(b, v, n - 1), v[n - 1]) }
}
pub open spec fn put_grabs(b: Seq<i8>, v: Seq<GrabDeviceFilter>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put::<bool>(put_filter(put_grabs(b, v, n - 1), v[n - 1].base), v[n - 1].by_id) }
}
pub open spec fn put_strings(b: Seq<i8>, v: Seq<Seq<i8>>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put_string(put_strings(b, v, n - 1), v[n - 1]) }
}
pub open spec fn put_indices(b: Seq<i8>, v: Seq<i32>, n: int) -> Seq<i8>
  decreases n
{
  if n <= 0 { b } else { put::<u32>(put_indices(b, v, n - 1), wrap_u32(v[n - 1] as int) as u32) }
}

// ---- what is read: the value at a position and the position after it, if it is complete
pub open spec fn get<T>(b: Seq<i8>, p: int) -> Option<(T, int)> {
  if 0 <= p && p + size_of::<T>() <= b.len() { Some((of_bytes::<T>(b.subrange(p, p + size_of::<T>())), p + size_of::<T>())) } else { None }
}
pub open spec fn get_string(b: Seq<i8>, p: int) -> Option<(Seq<i8>, int)> {
  match get::<u32>(b, p) {
    Some((n, q)) => if q + n <= b.len() { Some((b.subrange(q, q + n), q + n)) } else { None },
    None => None,
  }
}
pub uninterp spec fn regex_text(s: Seq<i8>) -> bool;
pub uninterp spec fn regex_of(s: Seq<i8>) -> Opaque;
pub open spec fn filter_of(s: Seq<i8>, invert: bool) -> Filter {
  Filter { string_: s, invert: invert, regex: if regex_text(s) { Some(regex_of(s)) } else { None } }
}
pub open spec fn get_filter(b: Seq<i8>, p: int) -> Option<(Filter, int)> {
  match get_string(b, p) {
    Some((s, q)) => match get::<bool>(b, q) {
      Some((invert, r)) => Some((filter_of(s, invert), r)),
      None => None,
    },
    None => None,
  }
}
pub open spec fn get_events_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<KeyEvent>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_events_n(b, p, n - 1) {
      Some((v, q)) => match get::<KeyEvent>(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_sequence(b: Seq<i8>, p: int) -> Option<(Seq<KeyEvent>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_events_n(b, q, n as int), None => None }
}
pub open spec fn get_grab(b: Seq<i8>, p: int) -> Option<(GrabDeviceFilter, int)> {
  match get_filter(b, p) {
    Some((f, q)) => match get::<bool>(b, q) { Some((by_id, r)) => Some((GrabDeviceFilter { base: f, by_id: by_id }, r)), None => None },
    None => None,
  }
}
pub open spec fn get_index(b: Seq<i8>, p: int) -> Option<(i32, int)> {
  match get::<u32>(b, p) { Some((n, q)) => Some((wrap_i32(n as int) as i32, q)), None => None }
}
pub open spec fn get_grabs_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<GrabDeviceFilter>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_grabs_n(b, p, n - 1) {
      Some((v, q)) => match get_grab(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_grabs(b: Seq<i8>, p: int) -> Option<(Seq<GrabDeviceFilter>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_grabs_n(b, q, n as int), None => None }
}
pub open spec fn get_strings_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<Seq<i8>>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_strings_n(b, p, n - 1) {
      Some((v, q)) => match get_string(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_strings(b: Seq<i8>, p: int) -> Option<(Seq<Seq<i8>>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_strings_n(b, q, n as int), None => None }
}
pub open spec fn get_indices_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<i32>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_indices_n(b, p, n - 1) {
      Some((v, q)) => match get_index(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_indices(b: Seq<i8>, p: int) -> Option<(Seq<i32>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_indices_n(b, q, n as int), None => None }
}
pub open spec fn get_input(b: Seq<i8>, p: int) -> Option<(Stage_Input, int)> {
  match get_sequence(b, p) {
    Some((s, q)) => match get::<i32>(b, q) { Some((n, r)) => Some((Stage_Input { input: s, output_index: n }, r)), None => None },
    None => None,
  }
}
pub open spec fn get_command(b: Seq<i8>, p: int) -> Option<(Stage_CommandOutput, int)> {
  match get_sequence(b, p) {
    Some((s, q)) => match get::<i32>(b, q) { Some((n, r)) => Some((Stage_CommandOutput { output: s, index: n }, r)), None => None },
    None => None,
  }
}
pub open spec fn get_inputs_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<Stage_Input>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_inputs_n(b, p, n - 1) {
      Some((v, q)) => match get_input(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_inputs(b: Seq<i8>, p: int) -> Option<(Seq<Stage_Input>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_inputs_n(b, q, n as int), None => None }
}
pub open spec fn get_outputs_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<Seq<KeyEvent>>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_outputs_n(b, p, n - 1) {
      Some((v, q)) => match get_sequence(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_outputs(b: Seq<i8>, p: int) -> Option<(Seq<Seq<KeyEvent>>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_outputs_n(b, q, n as int), None => None }
}
pub open spec fn get_commands_n(b: Seq<i8>, p: int, n: int) -> Option<(Seq<Stage_CommandOutput>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), p)) } else {
    match get_commands_n(b, p, n - 1) {
      Some((v, q)) => match get_command(b, q) { Some((e, r)) => Some((v.push(e), r)), None => None },
      None => None,
    }
  }
}
pub open spec fn get_commands(b: Seq<i8>, p: int) -> Option<(Seq<Stage_CommandOutput>, int)> {
  match get::<u32>(b, p) { Some((n, q)) => get_commands_n(b, q, n as int), None => None }
}
pub open spec fn only_inputs(c: Seq<Stage_Input>, a: Seq<Stage_Context>, b: Seq<Stage_Context>) -> bool {
  a.len() == b.len() && a.len() > 0 && b.last().inputs.len() == a.last().inputs.len()
  && b.drop_last() == a.drop_last() && b.last() == (Stage_Context { inputs: b.last().inputs, ..a.last() })
}
pub open spec fn only_outputs(c: Seq<Seq<KeyEvent>>, a: Seq<Stage_Context>, b: Seq<Stage_Context>) -> bool {
  a.len() == b.len() && a.len() > 0 && b.last().outputs.len() == a.last().outputs.len()
  && b.drop_last() == a.drop_last() && b.last() == (Stage_Context { outputs: b.last().outputs, ..a.last() })
}
pub open spec fn only_commands(c: Seq<Stage_CommandOutput>, a: Seq<Stage_Context>, b: Seq<Stage_Context>) -> bool {
  a.len() == b.len() && a.len() > 0 && b.last().command_outputs.len() == a.last().command_outputs.len()
  && b.drop_last() == a.drop_last() && b.last() == (Stage_Context { command_outputs: b.last().command_outputs, ..a.last() })
}
pub open spec fn stage_context(inputs: Seq<Stage_Input>, outputs: Seq<Seq<KeyEvent>>, commands: Seq<Stage_CommandOutput>, device: Filter,
    device_id: Filter, modifier: Seq<KeyEvent>, invert: bool, fallthrough: bool) -> Stage_Context {
  Stage_Context { inputs: inputs, outputs: outputs, command_outputs: commands, device_filter: device, device_id_filter: device_id,
    modifier_filter: modifier, matching_device_bits: 0xFFFF_FFFF_FFFF_FFFFu64, invert_modifier_filter: invert, fallthrough: fallthrough }
}
pub open spec fn get_context(b: Seq<i8>, p: int) -> Option<(bool, Stage_Context, int)> {
  match get::<bool>(b, p) { None => None, Some((begin, p0)) =>
    match get_inputs(b, p0) { None => None, Some((inputs, p1)) =>
      match get_outputs(b, p1) { None => None, Some((outputs, p2)) =>
        match get_commands(b, p2) { None => None, Some((commands, p3)) =>
          match get_filter(b, p3) { None => None, Some((device, p4)) =>
            match get_filter(b, p4) { None => None, Some((device_id, p5)) =>
              match get_sequence(b, p5) { None => None, Some((modifier, p6)) =>
                match get::<bool>(b, p6) { None => None, Some((invert, p7)) =>
                  match get::<bool>(b, p7) { None => None, Some((fallthrough, p8)) =>
                    Some((begin, stage_context(inputs, outputs, commands, device, device_id, modifier, invert, fallthrough), p8))
  }}}}}}}}}
}
pub type Stages = Seq<Option<Seq<Stage_Context>>>;
// a context either starts a stage or belongs to the current one
pub open spec fn closed(stages: Stages, contexts: Seq<Stage_Context>) -> Stages {
  if contexts.len() == 0 { stages } else { stages.push(Some(contexts)) }
}
pub open spec fn get_stages_n(b: Seq<i8>, p: int, n: int) -> Option<(Stages, Seq<Stage_Context>, int)>
  decreases n
{
  if n <= 0 { Some((Seq::empty(), Seq::empty(), p)) } else {
    match get_stages_n(b, p, n - 1) {
      Some((stages, contexts, q)) => match get_context(b, q) {
        Some((begin, c, r)) => Some(if begin { (closed(stages, contexts), Seq::empty().push(c), r) } else { (stages, contexts.push(c), r) }),
        None => None,
      },
      None => None,
    }
  }
}
pub open spec fn get_stages(b: Seq<i8>, p: int) -> Option<(Option<Stages>, int)> {
  match get::<u32>(b, p) {
    Some((n, q)) => match get_stages_n(b, q, n as int) { Some((stages, contexts, r)) => Some((Some(closed(stages, contexts)), r)), None => None },
    None => None,
  }
}
pub open spec fn read_so_far(g: Option<(Stages, Seq<Stage_Context>, int)>, stages: Stages, contexts: Seq<Stage_Context>, it: int) -> bool {
  g is Some ==> stages == g->Some_0.0 && same(contexts, g->Some_0.1) && it == g->Some_0.2
}
pub open spec fn d_ok(d: Deserializer) -> bool { 0 <= d.it <= d.buffer.len() && d.buffer.len() < 0x4000_0000_0000_0000 }
pub open spec fn d_moved(pre: Deserializer, post: Deserializer) -> bool { post.buffer == pre.buffer && pre.it <= post.it && d_ok(post) }
// ---- round trip: what was written is read again
pub open spec fn ext(b: Seq<i8>, w: Seq<i8>) -> bool { w.len() <= b.len() && b.subrange(0, w.len() as int) == w }
pub proof fn lemma_ext(b: Seq<i8>, w: Seq<i8>, x: Seq<i8>)
  requires ext(b, w.add(x))
  ensures ext(b, w), b.subrange(w.len() as int, (w.len() + x.len()) as int) == x
{
  let wx = w.add(x);
  assert(b.subrange(0, w.len() as int) =~= w) by {
    assert forall|i: int| 0 <= i < w.len() implies b[i] == w[i] by { assert(b.subrange(0, wx.len() as int)[i] == wx[i]); }
  }
  assert(b.subrange(w.len() as int, (w.len() + x.len()) as int) =~= x) by {
    assert forall|i: int| 0 <= i < x.len() implies b[w.len() + i] == x[i] by { assert(b.subrange(0, wx.len() as int)[w.len() + i] == wx[w.len() + i]); }
  }
}
pub proof fn rt<T>(b: Seq<i8>, w: Seq<i8>, v: T)
  requires ext(b, put::<T>(w, v)), bytes_of::<T>(v).len() == size_of::<T>(), of_bytes::<T>(bytes_of::<T>(v)) == v
  ensures ext(b, w), get::<T>(b, w.len() as int) == Some((v, put::<T>(w, v).len() as int))
{
  lemma_ext(b, w, bytes_of::<T>(v));
}
pub open spec fn small(n: nat) -> bool { n < 0x1_0000_0000 }
pub proof fn rt_len(b: Seq<i8>, w: Seq<i8>, n: nat)
  requires ext(b, put::<u32>(w, len32(n))), small(n)
  ensures ext(b, w), get::<u32>(b, w.len() as int) == Some((n as u32, put::<u32>(w, len32(n)).len() as int)), (n as u32) as nat == n
{
  broadcast use wire_lemmas;
  rt::<u32>(b, w, len32(n));
  assert(len32(n) == n as u32);
}
pub proof fn rt_string(b: Seq<i8>, w: Seq<i8>, v: Seq<i8>)
  requires ext(b, put_string(w, v)), small(v.len())
  ensures ext(b, w), get_string(b, w.len() as int) == Some((v, put_string(w, v).len() as int))
{
  lemma_ext(b, put::<u32>(w, len32(v.len())), v);
  rt_len(b, w, v.len());
}
pub proof fn rt_filter(b: Seq<i8>, w: Seq<i8>, v: Filter)
  requires ext(b, put_filter(w, v)), small(v.string_.len())
  ensures ext(b, w), get_filter(b, w.len() as int) == Some((filter_of(v.string_, v.invert), put_filter(w, v).len() as int))
{
  broadcast use wire_lemmas;
  rt::<bool>(b, put_string(w, v.string_), v.invert);
  rt_string(b, w, v.string_);
}
pub open spec fn seen_events(v: Seq<KeyEvent>, n: int) -> Seq<KeyEvent>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_events(v, n - 1).push(v[n - 1]) }
}
pub open spec fn fits_events(v: Seq<KeyEvent>) -> bool { small(v.len()) }
pub proof fn rt_events_n(b: Seq<i8>, w: Seq<i8>, v: Seq<KeyEvent>, n: int)
  requires ext(b, put_events(w, v, n)), 0 <= n <= v.len(), fits_events(v)
  ensures ext(b, w), get_events_n(b, w.len() as int, n) == Some((seen_events(v, n), put_events(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_events(w, v, n - 1);
    rt::<KeyEvent>(b, u, x);
    rt_events_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_events(w: Seq<i8>, v: Seq<KeyEvent>) -> Seq<i8> { put_events(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_events(b: Seq<i8>, w: Seq<i8>, v: Seq<KeyEvent>)
  requires ext(b, put_all_events(w, v)), fits_events(v)
  ensures ext(b, w), get_sequence(b, w.len() as int) == Some((seen_events(v, v.len() as int), put_all_events(w, v).len() as int))
{
  rt_events_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub proof fn seen_events_all(v: Seq<KeyEvent>, n: int)
  requires 0 <= n <= v.len()
  ensures seen_events(v, n) == v.subrange(0, n)
  decreases n
{
  if n > 0 { seen_events_all(v, n - 1); }
  assert(seen_events(v, n) =~= v.subrange(0, n));
}
pub proof fn rt_sequence(b: Seq<i8>, w: Seq<i8>, v: Seq<KeyEvent>)
  requires ext(b, put_sequence(w, v)), small(v.len())
  ensures ext(b, w), get_sequence(b, w.len() as int) == Some((v, put_sequence(w, v).len() as int))
{
  rt_events(b, w, v);
  seen_events_all(v, v.len() as int);
  assert(v.subrange(0, v.len() as int) =~= v);
}
pub open spec fn seen_inputs(v: Seq<Config_Input>, n: int) -> Seq<Stage_Input>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_inputs(v, n - 1).push(Stage_Input { input: v[n - 1].input, output_index: v[n - 1].output_index }) }
}
pub open spec fn fits_inputs(v: Seq<Config_Input>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> small((#[trigger] v[i]).input.len()) }
pub proof fn rt_inputs_n(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_Input>, n: int)
  requires ext(b, put_inputs(w, v, n)), 0 <= n <= v.len(), fits_inputs(v)
  ensures ext(b, w), get_inputs_n(b, w.len() as int, n) == Some((seen_inputs(v, n), put_inputs(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_inputs(w, v, n - 1);
    rt::<i32>(b, put_sequence(u, x.input), x.output_index); rt_sequence(b, u, x.input);
    rt_inputs_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_inputs(w: Seq<i8>, v: Seq<Config_Input>) -> Seq<i8> { put_inputs(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_inputs(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_Input>)
  requires ext(b, put_all_inputs(w, v)), fits_inputs(v)
  ensures ext(b, w), get_inputs(b, w.len() as int) == Some((seen_inputs(v, v.len() as int), put_all_inputs(w, v).len() as int))
{
  rt_inputs_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub open spec fn seen_outputs(v: Seq<Seq<KeyEvent>>, n: int) -> Seq<Seq<KeyEvent>>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_outputs(v, n - 1).push(v[n - 1]) }
}
pub open spec fn fits_outputs(v: Seq<Seq<KeyEvent>>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> small((#[trigger] v[i]).len()) }
pub proof fn rt_outputs_n(b: Seq<i8>, w: Seq<i8>, v: Seq<Seq<KeyEvent>>, n: int)
  requires ext(b, put_outputs(w, v, n)), 0 <= n <= v.len(), fits_outputs(v)
  ensures ext(b, w), get_outputs_n(b, w.len() as int, n) == Some((seen_outputs(v, n), put_outputs(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_outputs(w, v, n - 1);
    rt_sequence(b, u, x);
    rt_outputs_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_outputs(w: Seq<i8>, v: Seq<Seq<KeyEvent>>) -> Seq<i8> { put_outputs(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_outputs(b: Seq<i8>, w: Seq<i8>, v: Seq<Seq<KeyEvent>>)
  requires ext(b, put_all_outputs(w, v)), fits_outputs(v)
  ensures ext(b, w), get_outputs(b, w.len() as int) == Some((seen_outputs(v, v.len() as int), put_all_outputs(w, v).len() as int))
{
  rt_outputs_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub open spec fn seen_commands(v: Seq<Config_CommandOutput>, n: int) -> Seq<Stage_CommandOutput>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_commands(v, n - 1).push(Stage_CommandOutput { output: v[n - 1].output, index: v[n - 1].index }) }
}
pub open spec fn fits_commands(v: Seq<Config_CommandOutput>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> small((#[trigger] v[i]).output.len()) }
pub proof fn rt_commands_n(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_CommandOutput>, n: int)
  requires ext(b, put_commands(w, v, n)), 0 <= n <= v.len(), fits_commands(v)
  ensures ext(b, w), get_commands_n(b, w.len() as int, n) == Some((seen_commands(v, n), put_commands(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_commands(w, v, n - 1);
    rt::<i32>(b, put_sequence(u, x.output), x.index); rt_sequence(b, u, x.output);
    rt_commands_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_commands(w: Seq<i8>, v: Seq<Config_CommandOutput>) -> Seq<i8> { put_commands(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_commands(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_CommandOutput>)
  requires ext(b, put_all_commands(w, v)), fits_commands(v)
  ensures ext(b, w), get_commands(b, w.len() as int) == Some((seen_commands(v, v.len() as int), put_all_commands(w, v).len() as int))
{
  rt_commands_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub open spec fn seen_grabs(v: Seq<GrabDeviceFilter>, n: int) -> Seq<GrabDeviceFilter>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_grabs(v, n - 1).push(GrabDeviceFilter { base: filter_of(v[n - 1].base.string_, v[n - 1].base.invert), by_id: v[n - 1].by_id }) }
}
pub open spec fn fits_grabs(v: Seq<GrabDeviceFilter>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> small((#[trigger] v[i]).base.string_.len()) }
pub proof fn rt_grabs_n(b: Seq<i8>, w: Seq<i8>, v: Seq<GrabDeviceFilter>, n: int)
  requires ext(b, put_grabs(w, v, n)), 0 <= n <= v.len(), fits_grabs(v)
  ensures ext(b, w), get_grabs_n(b, w.len() as int, n) == Some((seen_grabs(v, n), put_grabs(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_grabs(w, v, n - 1);
    rt::<bool>(b, put_filter(u, x.base), x.by_id); rt_filter(b, u, x.base);
    rt_grabs_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_grabs(w: Seq<i8>, v: Seq<GrabDeviceFilter>) -> Seq<i8> { put_grabs(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_grabs(b: Seq<i8>, w: Seq<i8>, v: Seq<GrabDeviceFilter>)
  requires ext(b, put_all_grabs(w, v)), fits_grabs(v)
  ensures ext(b, w), get_grabs(b, w.len() as int) == Some((seen_grabs(v, v.len() as int), put_all_grabs(w, v).len() as int))
{
  rt_grabs_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub open spec fn seen_strings(v: Seq<Seq<i8>>, n: int) -> Seq<Seq<i8>>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_strings(v, n - 1).push(v[n - 1]) }
}
pub open spec fn fits_strings(v: Seq<Seq<i8>>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> small((#[trigger] v[i]).len()) }
pub proof fn rt_strings_n(b: Seq<i8>, w: Seq<i8>, v: Seq<Seq<i8>>, n: int)
  requires ext(b, put_strings(w, v, n)), 0 <= n <= v.len(), fits_strings(v)
  ensures ext(b, w), get_strings_n(b, w.len() as int, n) == Some((seen_strings(v, n), put_strings(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_strings(w, v, n - 1);
    rt_string(b, u, x);
    rt_strings_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_strings(w: Seq<i8>, v: Seq<Seq<i8>>) -> Seq<i8> { put_strings(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_strings(b: Seq<i8>, w: Seq<i8>, v: Seq<Seq<i8>>)
  requires ext(b, put_all_strings(w, v)), fits_strings(v)
  ensures ext(b, w), get_strings(b, w.len() as int) == Some((seen_strings(v, v.len() as int), put_all_strings(w, v).len() as int))
{
  rt_strings_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub proof fn wrap_back(x: i32)
  ensures wrap_i32((wrap_u32(x as int) as u32) as int) as i32 == x
{ }
pub open spec fn seen_indices(v: Seq<i32>, n: int) -> Seq<i32>
  decreases n
{
  if n <= 0 { Seq::empty() } else { seen_indices(v, n - 1).push(v[n - 1]) }
}
pub open spec fn fits_indices(v: Seq<i32>) -> bool { small(v.len()) }
pub proof fn rt_indices_n(b: Seq<i8>, w: Seq<i8>, v: Seq<i32>, n: int)
  requires ext(b, put_indices(w, v, n)), 0 <= n <= v.len(), fits_indices(v)
  ensures ext(b, w), get_indices_n(b, w.len() as int, n) == Some((seen_indices(v, n), put_indices(w, v, n).len() as int))
  decreases n
{
  broadcast use wire_lemmas;
  if n > 0 {
    let x = v[n - 1];
    let u = put_indices(w, v, n - 1);
    rt::<u32>(b, u, wrap_u32(x as int) as u32); wrap_back(x);
    rt_indices_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_indices(w: Seq<i8>, v: Seq<i32>) -> Seq<i8> { put_indices(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub proof fn rt_indices(b: Seq<i8>, w: Seq<i8>, v: Seq<i32>)
  requires ext(b, put_all_indices(w, v)), fits_indices(v)
  ensures ext(b, w), get_indices(b, w.len() as int) == Some((seen_indices(v, v.len() as int), put_all_indices(w, v).len() as int))
{
  rt_indices_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
pub open spec fn fits_context(v: Config_Context) -> bool {
  fits_inputs(v.inputs) && fits_outputs(v.outputs) && fits_commands(v.command_outputs) && small(v.device_filter.string_.len())
  && small(v.device_id_filter.string_.len()) && small(v.modifier_filter.len())
}
// what the server gets to know of a context
pub open spec fn seen_context(v: Config_Context) -> Stage_Context {
  stage_context(seen_inputs(v.inputs, v.inputs.len() as int), seen_outputs(v.outputs, v.outputs.len() as int),
    seen_commands(v.command_outputs, v.command_outputs.len() as int), filter_of(v.device_filter.string_, v.device_filter.invert),
    filter_of(v.device_id_filter.string_, v.device_id_filter.invert), v.modifier_filter, v.invert_modifier_filter, v.fallthrough)
}
pub proof fn rt_context(b: Seq<i8>, w: Seq<i8>, v: Config_Context)
  requires ext(b, put_context(w, v)), fits_context(v)
  ensures ext(b, w), get_context(b, w.len() as int) == Some((v.begin_stage, seen_context(v), put_context(w, v).len() as int))
{
  broadcast use wire_lemmas;
  let b0 = put::<bool>(w, v.begin_stage);
  let b1 = put_all_inputs(b0, v.inputs);
  let b2 = put_all_outputs(b1, v.outputs);
  let b3 = put_all_commands(b2, v.command_outputs);
  let b4 = put_filter(b3, v.device_filter);
  let b5 = put_filter(b4, v.device_id_filter);
  let b6 = put_sequence(b5, v.modifier_filter);
  let b7 = put::<bool>(b6, v.invert_modifier_filter);
  rt::<bool>(b, b7, v.fallthrough);
  rt::<bool>(b, b6, v.invert_modifier_filter);
  rt_sequence(b, b5, v.modifier_filter);
  rt_filter(b, b4, v.device_id_filter);
  rt_filter(b, b3, v.device_filter);
  rt_commands(b, b2, v.command_outputs);
  rt_outputs(b, b1, v.outputs);
  rt_inputs(b, b0, v.inputs);
  rt::<bool>(b, w, v.begin_stage);
}
// contexts are split into stages where a stage begins
pub open spec fn grouped(v: Seq<Config_Context>, n: int) -> (Stages, Seq<Stage_Context>)
  decreases n
{
  if n <= 0 { (Seq::empty(), Seq::empty()) } else {
    let (stages, contexts) = grouped(v, n - 1);
    let c = seen_context(v[n - 1]);
    if v[n - 1].begin_stage { (closed(stages, contexts), Seq::empty().push(c)) } else { (stages, contexts.push(c)) }
  }
}
pub open spec fn fits_contexts(v: Seq<Config_Context>) -> bool { small(v.len()) && forall|i: int| 0 <= i < v.len() ==> fits_context(#[trigger] v[i]) }
pub proof fn rt_contexts_n(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_Context>, n: int)
  requires ext(b, put_contexts(w, v, n)), 0 <= n <= v.len(), fits_contexts(v)
  ensures ext(b, w), get_stages_n(b, w.len() as int, n) == Some((grouped(v, n).0, grouped(v, n).1, put_contexts(w, v, n).len() as int))
  decreases n
{
  if n > 0 {
    rt_context(b, put_contexts(w, v, n - 1), v[n - 1]);
    rt_contexts_n(b, w, v, n - 1);
  }
}
pub open spec fn put_all_contexts(w: Seq<i8>, v: Seq<Config_Context>) -> Seq<i8> { put_contexts(put::<u32>(w, len32(v.len())), v, v.len() as int) }
pub open spec fn seen_stages(v: Seq<Config_Context>) -> Stages { closed(grouped(v, v.len() as int).0, grouped(v, v.len() as int).1) }
pub proof fn rt_contexts(b: Seq<i8>, w: Seq<i8>, v: Seq<Config_Context>)
  requires ext(b, put_all_contexts(w, v)), fits_contexts(v)
  ensures ext(b, w), get_stages(b, w.len() as int) == Some((Some(seen_stages(v)), put_all_contexts(w, v).len() as int))
{
  rt_contexts_n(b, put::<u32>(w, len32(v.len())), v, v.len() as int);
  rt_len(b, w, v.len());
}
// ---- messages
// every message is preceded by its size
pub open spec fn framed(w: Seq<i8>, body: Seq<i8>) -> Seq<i8> { put::<u32>(w, len32(body.len())).add(body) }
pub open spec fn kind(n: u8) -> Seq<i8> { put::<u8>(Seq::empty(), n) }
// what one message makes the server do
pub open spec fn server_msg(b: Seq<i8>, p: int) -> Option<(Seq<Msg>, int)> {
  match get::<u8>(b, p) {
    Some((k, q)) =>
      if k == 1 {
        match get_grabs(b, q) { None => None, Some((grabs, r)) =>
          match get_stages(b, r) { None => None, Some((stages, t)) =>
            match get_strings(b, t) { None => None, Some((directives, u)) =>
              Some((seq![Msg::Grabs(grabs), Msg::Mappings(stages), Msg::Directives(directives)], u)) } } }
      } else if k == 2 {
        match get_indices(b, q) { None => None, Some((indices, r)) => Some((seq![Msg::Active(indices)], r)) }
      } else if k == 3 { Some((seq![Msg::Validate], q))
      } else if k == 7 {
        match get::<u16>(b, q) { None => None, Some((key, r)) =>
          match get::<u16>(b, r) { None => None, Some((state, t)) => Some((seq![Msg::VirtualKey(key, state)], t)) } }
      } else if k == 11 { Some((seq![Msg::NextKey], q))
      } else if k == 12 {
        match get_sequence(b, q) { None => None, Some((keys, r)) => Some((seq![Msg::Input(keys)], r)) }
      } else if k == 13 {
        match get_sequence(b, q) { None => None, Some((keys, r)) => Some((seq![Msg::Output(keys)], r)) }
      } else { None },
    None => None,
  }
}
// what one message makes the client do
pub open spec fn client_msg(b: Seq<i8>, p: int) -> Option<(Seq<Msg>, int)> {
  match get::<u8>(b, p) {
    Some((k, q)) =>
      if k == 4 {
        match get_index(b, q) { None => None, Some((n, r)) => Some((seq![Msg::Action(n)], r)) }
      } else if k == 5 {
        match get::<u16>(b, q) { None => None, Some((key, r)) =>
          match get::<u16>(b, r) { None => None, Some((state, t)) => Some((seq![Msg::VirtualKey(key, state)], t)) } }
      } else if k == 11 {
        match get::<u16>(b, q) { None => None, Some((key, r)) =>
          match get_string(b, r) { None => None, Some((name, t)) =>
            match get_string(b, t) { None => None, Some((id, u)) => Some((seq![Msg::KeyInfo(key, name, id)], u)) } } }
      } else { None },
    None => None,
  }
}
// the complete messages from position p on: what they make the server do and where the incomplete rest begins, if they are valid
pub open spec fn server_all(b: Seq<i8>, p: int) -> Option<(Seq<Msg>, int)>
  decreases b.len() - p
{
  match get::<u32>(b, p) {
    Some((n, q)) =>
      if q + n > b.len() || q <= p { Some((Seq::empty(), p)) } else {
        match server_msg(b, q) {
          Some((m, r)) => if r == q + n {
            match server_all(b, r) { Some((ms, e)) => Some((m.add(ms), e)), None => None }
          } else { None },
          None => None,
        }
      },
    None => Some((Seq::empty(), p)),
  }
}
pub open spec fn server_progress(b: Seq<i8>, t0: Seq<Msg>, p: int, t: Seq<Msg>) -> bool {
  server_all(b, 0) is Some ==> server_all(b, p) is Some && server_all(b, p)->Some_0.1 == server_all(b, 0)->Some_0.1
    && t.add(server_all(b, p)->Some_0.0) =~= t0.add(server_all(b, 0)->Some_0.0)
}
// the complete messages from position p on: what they make the client do and where the incomplete rest begins, if they are valid
pub open spec fn client_all(b: Seq<i8>, p: int) -> Option<(Seq<Msg>, int)>
  decreases b.len() - p
{
  match get::<u32>(b, p) {
    Some((n, q)) =>
      if q + n > b.len() || q <= p { Some((Seq::empty(), p)) } else {
        match client_msg(b, q) {
          Some((m, r)) => if r == q + n {
            match client_all(b, r) { Some((ms, e)) => Some((m.add(ms), e)), None => None }
          } else { None },
          None => None,
        }
      },
    None => Some((Seq::empty(), p)),
  }
}
pub open spec fn client_progress(b: Seq<i8>, t0: Seq<Msg>, p: int, t: Seq<Msg>) -> bool {
  client_all(b, 0) is Some ==> client_all(b, p) is Some && client_all(b, p)->Some_0.1 == client_all(b, 0)->Some_0.1
    && t.add(client_all(b, p)->Some_0.0) =~= t0.add(client_all(b, 0)->Some_0.0)
}
pub open spec fn bounded(s: Seq<i8>) -> Seq<i8> { if s.len() < 0x2000_0000_0000_0000 { s } else { Seq::empty() } }
// ---- appending does not depend on what was written before
pub broadcast proof fn ap<T>(a: Seq<i8>, x: Seq<i8>, v: T)
  ensures #[trigger] put::<T>(a.add(x), v) == a.add(put::<T>(x, v))
{
  assert(put::<T>(a.add(x), v) =~= a.add(put::<T>(x, v)));
}
pub broadcast proof fn ap_string(a: Seq<i8>, x: Seq<i8>, v: Seq<i8>)
  ensures #[trigger] put_string(a.add(x), v) == a.add(put_string(x, v))
{
  assert(put_string(a.add(x), v) =~= a.add(put_string(x, v)));
}
pub broadcast proof fn ap_filter(a: Seq<i8>, x: Seq<i8>, v: Filter)
  ensures #[trigger] put_filter(a.add(x), v) == a.add(put_filter(x, v))
{
  broadcast use ap, ap_string;
}
pub broadcast proof fn ap_events(a: Seq<i8>, x: Seq<i8>, v: Seq<KeyEvent>, n: int)
  ensures #[trigger] put_events(a.add(x), v, n) == a.add(put_events(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter;
  if n > 0 { ap_events(a, x, v, n - 1); }
}
pub broadcast proof fn ap_sequence(a: Seq<i8>, x: Seq<i8>, v: Seq<KeyEvent>)
  ensures #[trigger] put_sequence(a.add(x), v) == a.add(put_sequence(x, v))
{
  broadcast use ap, ap_events;
}
pub broadcast proof fn ap_inputs(a: Seq<i8>, x: Seq<i8>, v: Seq<Config_Input>, n: int)
  ensures #[trigger] put_inputs(a.add(x), v, n) == a.add(put_inputs(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_inputs(a, x, v, n - 1); }
}
pub broadcast proof fn ap_outputs(a: Seq<i8>, x: Seq<i8>, v: Seq<Seq<KeyEvent>>, n: int)
  ensures #[trigger] put_outputs(a.add(x), v, n) == a.add(put_outputs(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_outputs(a, x, v, n - 1); }
}
pub broadcast proof fn ap_commands(a: Seq<i8>, x: Seq<i8>, v: Seq<Config_CommandOutput>, n: int)
  ensures #[trigger] put_commands(a.add(x), v, n) == a.add(put_commands(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_commands(a, x, v, n - 1); }
}
pub broadcast proof fn ap_grabs(a: Seq<i8>, x: Seq<i8>, v: Seq<GrabDeviceFilter>, n: int)
  ensures #[trigger] put_grabs(a.add(x), v, n) == a.add(put_grabs(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_grabs(a, x, v, n - 1); }
}
pub broadcast proof fn ap_strings(a: Seq<i8>, x: Seq<i8>, v: Seq<Seq<i8>>, n: int)
  ensures #[trigger] put_strings(a.add(x), v, n) == a.add(put_strings(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_strings(a, x, v, n - 1); }
}
pub broadcast proof fn ap_indices(a: Seq<i8>, x: Seq<i8>, v: Seq<i32>, n: int)
  ensures #[trigger] put_indices(a.add(x), v, n) == a.add(put_indices(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_sequence;
  if n > 0 { ap_indices(a, x, v, n - 1); }
}
pub broadcast proof fn ap_context(a: Seq<i8>, x: Seq<i8>, v: Config_Context)
  ensures #[trigger] put_context(a.add(x), v) == a.add(put_context(x, v))
{
  broadcast use ap, ap_filter, ap_sequence, ap_inputs, ap_outputs, ap_commands;
}
pub broadcast proof fn ap_contexts(a: Seq<i8>, x: Seq<i8>, v: Seq<Config_Context>, n: int)
  ensures #[trigger] put_contexts(a.add(x), v, n) == a.add(put_contexts(x, v, n))
  decreases n
{
  broadcast use ap, ap_string, ap_filter, ap_context;
  if n > 0 { ap_contexts(a, x, v, n - 1); }
}
// ---- a message arrives as it was sent, wherever it is in the received bytes
pub proof fn lemma_frame(b: Seq<i8>, w: Seq<i8>, body: Seq<i8>)
  requires ext(b, framed(w, body)), small(body.len())
  ensures get::<u32>(b, w.len() as int) == Some((body.len() as u32, (w.len() + size_of::<u32>()) as int)), (body.len() as u32) as nat == body.len(),
    framed(w, body).len() == w.len() + size_of::<u32>() + body.len()
{
  broadcast use wire_lemmas;
  lemma_ext(b, put::<u32>(w, len32(body.len())), body);
  rt_len(b, w, body.len());
}
// an incomplete message is kept for later
pub proof fn lemma_partial(b: Seq<i8>, w: Seq<i8>, body: Seq<i8>)
  requires w.len() <= b.len() < framed(w, body).len(), ext(framed(w, body), b), small(body.len()), size_of::<u32>() == 4
  ensures server_all(b, w.len() as int) == Some((Seq::<Msg>::empty(), w.len() as int)), client_all(b, w.len() as int) == Some((Seq::<Msg>::empty(), w.len() as int))
{
  broadcast use wire_lemmas;
  let f = framed(w, body);
  let p = w.len() as int;
  assert(ext(f, f)) by { assert(f.subrange(0, f.len() as int) =~= f); }
  lemma_frame(f, w, body);
  if p + 4 <= b.len() {
    assert(b.subrange(p, p + 4) =~= f.subrange(p, p + 4)) by {
      assert forall|i: int| 0 <= i < b.len() implies b[i] == f[i] by { assert(f.subrange(0, b.len() as int)[i] == f[i]); }
    }
  }
}
pub proof fn lemma_config_arrives(b: Seq<i8>, w: Seq<i8>, grabs: Seq<GrabDeviceFilter>, contexts: Seq<Config_Context>, directives: Seq<Seq<i8>>)
  requires ext(b, framed(w, put_all_strings(put_all_contexts(put_all_grabs(kind(1), grabs), contexts), directives))), small((put_all_strings(put_all_contexts(put_all_grabs(kind(1), grabs), contexts), directives)).len()), fits_grabs(grabs), fits_contexts(contexts), fits_strings(directives), size_of::<u32>() == 4
  ensures ({ let next = framed(w, put_all_strings(put_all_contexts(put_all_grabs(kind(1), grabs), contexts), directives)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::Grabs(seen_grabs(grabs, grabs.len() as int)), Msg::Mappings(Some(seen_stages(contexts))), Msg::Directives(seen_strings(directives, directives.len() as int))].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put_all_strings(put_all_contexts(put_all_grabs(kind(1), grabs), contexts), directives);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put_all_strings(put_all_contexts(put_all_grabs(put::<u8>(h, 1u8), grabs), contexts), directives) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let a = put::<u8>(h, 1u8); rt_strings(b, put_all_contexts(put_all_grabs(a, grabs), contexts), directives); rt_contexts(b, put_all_grabs(a, grabs), contexts); rt_grabs(b, a, grabs); rt::<u8>(b, h, 1u8);
}
pub proof fn lemma_active_arrives(b: Seq<i8>, w: Seq<i8>, indices: Seq<i32>)
  requires ext(b, framed(w, put_all_indices(kind(2), indices))), small((put_all_indices(kind(2), indices)).len()), fits_indices(indices), size_of::<u32>() == 4
  ensures ({ let next = framed(w, put_all_indices(kind(2), indices)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::Active(seen_indices(indices, indices.len() as int))].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put_all_indices(kind(2), indices);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put_all_indices(put::<u8>(h, 2u8), indices) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let a = put::<u8>(h, 2u8); rt_indices(b, a, indices); rt::<u8>(b, h, 2u8);
}
pub proof fn lemma_validate_arrives(b: Seq<i8>, w: Seq<i8>)
  requires ext(b, framed(w, kind(3))), small((kind(3)).len()), true, size_of::<u32>() == 4
  ensures ({ let next = framed(w, kind(3)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::Validate].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = kind(3);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put::<u8>(h, 3u8) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  rt::<u8>(b, h, 3u8);
}
pub proof fn lemma_set_virtual_arrives(b: Seq<i8>, w: Seq<i8>, key: u16, state: u16)
  requires ext(b, framed(w, put(put(kind(7), key), state))), small((put(put(kind(7), key), state)).len()), true, size_of::<u32>() == 4
  ensures ({ let next = framed(w, put(put(kind(7), key), state)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::VirtualKey(key, state)].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put(put(kind(7), key), state);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put(put(put::<u8>(h, 7u8), key), state) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let a = put::<u8>(h, 7u8); rt::<u16>(b, put(a, key), state); rt::<u16>(b, a, key); rt::<u8>(b, h, 7u8);
}
pub proof fn lemma_next_key_arrives(b: Seq<i8>, w: Seq<i8>)
  requires ext(b, framed(w, kind(11))), small((kind(11)).len()), true, size_of::<u32>() == 4
  ensures ({ let next = framed(w, kind(11)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::NextKey].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = kind(11);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put::<u8>(h, 11u8) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  rt::<u8>(b, h, 11u8);
}
pub proof fn lemma_input_arrives(b: Seq<i8>, w: Seq<i8>, keys: Seq<KeyEvent>)
  requires ext(b, framed(w, put_sequence(kind(12), keys))), small((put_sequence(kind(12), keys)).len()), small(keys.len()), size_of::<u32>() == 4
  ensures ({ let next = framed(w, put_sequence(kind(12), keys)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::Input(keys)].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put_sequence(kind(12), keys);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put_sequence(put::<u8>(h, 12u8), keys) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  rt_sequence(b, put::<u8>(h, 12u8), keys); rt::<u8>(b, h, 12u8);
}
pub proof fn lemma_output_arrives(b: Seq<i8>, w: Seq<i8>, keys: Seq<KeyEvent>)
  requires ext(b, framed(w, put_sequence(kind(13), keys))), small((put_sequence(kind(13), keys)).len()), small(keys.len()), size_of::<u32>() == 4
  ensures ({ let next = framed(w, put_sequence(kind(13), keys)).len() as int;
    server_all(b, next) is Some ==> server_all(b, w.len() as int) == Some((seq![Msg::Output(keys)].add(server_all(b, next)->Some_0.0), server_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put_sequence(kind(13), keys);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put_sequence(put::<u8>(h, 13u8), keys) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  rt_sequence(b, put::<u8>(h, 13u8), keys); rt::<u8>(b, h, 13u8);
}
pub proof fn lemma_action_arrives(b: Seq<i8>, w: Seq<i8>, action: i32)
  requires ext(b, framed(w, put(kind(4), wrap_u32(action as int) as u32))), small((put(kind(4), wrap_u32(action as int) as u32)).len()), true, size_of::<u32>() == 4
  ensures ({ let next = framed(w, put(kind(4), wrap_u32(action as int) as u32)).len() as int;
    client_all(b, next) is Some ==> client_all(b, w.len() as int) == Some((seq![Msg::Action(action)].add(client_all(b, next)->Some_0.0), client_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put(kind(4), wrap_u32(action as int) as u32);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put(put::<u8>(h, 4u8), wrap_u32(action as int) as u32) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let n = wrap_u32(action as int) as u32; rt::<u32>(b, put::<u8>(h, 4u8), n); wrap_back(action); rt::<u8>(b, h, 4u8);
}
pub proof fn lemma_virtual_arrives(b: Seq<i8>, w: Seq<i8>, key: u16, state: u16)
  requires ext(b, framed(w, put(put(kind(5), key), state))), small((put(put(kind(5), key), state)).len()), true, size_of::<u32>() == 4
  ensures ({ let next = framed(w, put(put(kind(5), key), state)).len() as int;
    client_all(b, next) is Some ==> client_all(b, w.len() as int) == Some((seq![Msg::VirtualKey(key, state)].add(client_all(b, next)->Some_0.0), client_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put(put(kind(5), key), state);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put(put(put::<u8>(h, 5u8), key), state) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let a = put::<u8>(h, 5u8); rt::<u16>(b, put(a, key), state); rt::<u16>(b, a, key); rt::<u8>(b, h, 5u8);
}
pub proof fn lemma_key_info_arrives(b: Seq<i8>, w: Seq<i8>, key: u16, name: Seq<i8>, id: Seq<i8>)
  requires ext(b, framed(w, put_string(put_string(put(kind(11), key), name), id))), small((put_string(put_string(put(kind(11), key), name), id)).len()), small(name.len()), small(id.len()), size_of::<u32>() == 4
  ensures ({ let next = framed(w, put_string(put_string(put(kind(11), key), name), id)).len() as int;
    client_all(b, next) is Some ==> client_all(b, w.len() as int) == Some((seq![Msg::KeyInfo(key, name, id)].add(client_all(b, next)->Some_0.0), client_all(b, next)->Some_0.1)) })
{
  broadcast use wire_lemmas;
  let body = put_string(put_string(put(kind(11), key), name), id);
  let h = put::<u32>(w, len32(body.len()));
  lemma_frame(b, w, body);
  assert(put_string(put_string(put(put::<u8>(h, 11u8), key), name), id) == framed(w, body)) by {
    broadcast use ap, ap_string, ap_sequence, ap_grabs, ap_contexts, ap_strings, ap_indices;
    assert(h.add(Seq::<i8>::empty()) =~= h);
  }
  let a = put::<u8>(h, 11u8); rt_string(b, put_string(put(a, key), name), id); rt_string(b, put(a, key), name); rt::<u16>(b, a, key); rt::<u8>(b, h, 11u8);
}
