pub open spec fn to_server(e: KeyEvent) -> bool {
  e.key == 0xF001 || 0xF100 <= e.key <= 0xF1FF || 0xF200 <= e.key <= 0xF2FF
}
pub open spec fn to_all(e: KeyEvent) -> bool { e.key == 0xF001 || 0xF100 <= e.key <= 0xF1FF }

// a stage with an empty output buffer and what it output since
pub struct Fed { pub s: Stage, pub out: Seq<KeyEvent> }

pub uninterp spec fn st_next(s: Stage, e: KeyEvent, d: i32) -> Stage;
pub uninterp spec fn st_out(s: Stage, e: KeyEvent, d: i32) -> Seq<KeyEvent>;
pub uninterp spec fn ctx_next(s: Stage, indices: Seq<i32>) -> Stage;
pub uninterp spec fn ctx_out(s: Stage, indices: Seq<i32>) -> Seq<KeyEvent>;

pub open spec fn emptied(s: Stage) -> Stage { Stage { m_output_buffer: Seq::empty(), ..s } }
pub open spec fn fed1(f: Fed, e: KeyEvent, d: i32) -> Fed {
  Fed { s: emptied(st_next(f.s, e, d)), out: f.out.add(st_out(f.s, e, d)) }
}
// the stage after the first n events of the sequence
pub open spec fn fed(f: Fed, q: Seq<KeyEvent>, n: int, d: i32, first: bool) -> Fed decreases n {
  if n <= 0 { f }
  else {
    let r = fed(f, q, n - 1, d, first);
    if !first && to_server(q[n - 1]) { Fed { s: r.s, out: r.out.push(q[n - 1]) } } else { fed1(r, q[n - 1], d) }
  }
}
// stage k after it was given the input
pub open spec fn stage_fed(s: Stage, k: int, e: KeyEvent, d: i32, input: Seq<KeyEvent>) -> Fed {
  let f = Fed { s: s, out: Seq::empty() };
  fed(if k > 0 && to_all(e) { fed1(f, e, d) } else { f }, input, input.len() as int, d, k == 0)
}
// output of the first k stages
pub open spec fn chain(st: Seq<Option<Stage>>, e: KeyEvent, d: i32, k: int) -> Seq<KeyEvent> decreases k {
  if k <= 0 { seq![e] } else { stage_fed(st[k - 1].unwrap(), k - 1, e, d, chain(st, e, d, k - 1)).out }
}
pub open spec fn chained(st: Seq<Option<Stage>>, e: KeyEvent, d: i32, k: int) -> Stage {
  stage_fed(st[k].unwrap(), k, e, d, chain(st, e, d, k)).s
}

// contexts before stage k
pub open spec fn offset(st: Seq<Option<Stage>>, k: int) -> int decreases k {
  if k <= 0 { 0 } else { offset(st, k - 1) + st[k - 1].unwrap().m_contexts.len() }
}
// the given context indices which belong to the stage, starting at 0
pub open spec fn own(indices: Seq<i32>, n: int, lo: int, hi: int) -> Seq<i32> decreases n {
  if n <= 0 { Seq::empty() }
  else if lo <= indices[n - 1] < hi { own(indices, n - 1, lo, hi).push((indices[n - 1] - lo) as i32) }
  else { own(indices, n - 1, lo, hi) }
}
pub open spec fn stage_own(st: Seq<Option<Stage>>, indices: Seq<i32>, k: int) -> Seq<i32> {
  own(indices, indices.len() as int, offset(st, k), offset(st, k + 1))
}
pub open spec fn context_fed(st: Seq<Option<Stage>>, indices: Seq<i32>, k: int, input: Seq<KeyEvent>) -> Fed {
  let f = fed(Fed { s: st[k].unwrap(), out: Seq::empty() }, input, input.len() as int, -1i32, false);
  let o = stage_own(st, indices, k);
  Fed { s: emptied(ctx_next(f.s, o)), out: f.out.add(ctx_out(f.s, o)) }
}
pub open spec fn context_chain(st: Seq<Option<Stage>>, indices: Seq<i32>, k: int) -> Seq<KeyEvent> decreases k {
  if k <= 0 { Seq::empty() } else { context_fed(st, indices, k - 1, context_chain(st, indices, k - 1)).out }
}
pub open spec fn present(m: MultiStage) -> bool {
  &&& forall|k: int| 0 <= k < m.m_stages.len() ==> (#[trigger] m.m_stages[k]) is Some && m.m_stages[k].unwrap().m_output_buffer.len() == 0
  &&& m.m_output_buffer.len() == 0
  &&& offset(m.m_stages, m.m_stages.len() as int) < 0x7fffffff
}
pub broadcast proof fn lemma_offset(st: Seq<Option<Stage>>, k: int)
  requires 0 <= k <= st.len()
  ensures 0 <= #[trigger] offset(st, k) <= offset(st, st.len() as int)
  decreases st.len() - k
{
  lemma_offset_min(st, k);
  if k < st.len() { lemma_offset(st, k + 1); }
}
proof fn lemma_offset_min(st: Seq<Option<Stage>>, k: int)
  ensures 0 <= offset(st, k)
  decreases k
{
  if k > 0 { lemma_offset_min(st, k - 1); }
}
