// number of contexts of the first n stages
pub open spec fn total(st: Seq<Option<Stage>>, n: int) -> int decreases n {
  if n <= 0 { 0 } else { total(st, n - 1) + st[n - 1]->Some_0.m_contexts.len() }
}
#[verifier::opaque]
pub open spec fn stages_safe(st: Seq<Option<Stage>>) -> bool {
  forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]) is Some && safe(st[i]->Some_0)
}
#[verifier::opaque]
pub open spec fn same_sizes(a: Seq<Option<Stage>>, b: Seq<Option<Stage>>) -> bool {
  a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i])->Some_0.m_contexts.len() == a[i]->Some_0.m_contexts.len()
}
pub open spec fn multi_safe(m: MultiStage) -> bool {
  stages_safe(m.m_stages) && total(m.m_stages, m.m_stages.len() as int) <= 0x7fffffff && index_order(m.m_active_client_contexts)
}
pub open spec fn ascending(s: Seq<i32>) -> bool { seq_sorted(s, |a: i32, b: i32| a < b) }
pub open spec fn index_order(s: Seq<i32>) -> bool { s.len() < 0x7fffffff && ascending(s) }
pub open spec fn server_safe(s: ServerState) -> bool { s.m_client is Some && s.m_stage is Some && multi_safe(s.m_stage->Some_0) }
// while events are sent, events are only appended
pub open spec fn sending(a: ServerState, b: ServerState) -> bool {
  a.m_sending_key ==> b.m_sending_key && b.m_send_buffer.len() >= a.m_send_buffer.len()
}
pub broadcast proof fn lemma_stage_at(st: Seq<Option<Stage>>, i: int)
  requires #[trigger] stages_safe(st), 0 <= i < st.len()
  ensures (#[trigger] st[i]) is Some && safe(st[i]->Some_0)
{ reveal(stages_safe); }
pub broadcast proof fn lemma_stage_update(st: Seq<Option<Stage>>, i: int, x: Option<Stage>)
  requires stages_safe(st), 0 <= i < st.len(), x is Some, safe(x->Some_0)
  ensures #[trigger] stages_safe(st.update(i, x))
{ reveal(stages_safe); }
pub broadcast proof fn lemma_stage_none(st: Seq<Option<Stage>>)
  requires st.len() == 0
  ensures #[trigger] stages_safe(st)
{ reveal(stages_safe); }
pub broadcast proof fn lemma_same(a: Seq<Option<Stage>>)
  ensures #[trigger] same_sizes(a, a)
{ reveal(same_sizes); }
pub broadcast proof fn lemma_same_at(a: Seq<Option<Stage>>, b: Seq<Option<Stage>>, i: int)
  requires #[trigger] same_sizes(a, b), 0 <= i < a.len()
  ensures (#[trigger] b[i])->Some_0.m_contexts.len() == a[i]->Some_0.m_contexts.len()
{ reveal(same_sizes); }
pub broadcast proof fn lemma_same_update(a: Seq<Option<Stage>>, b: Seq<Option<Stage>>, i: int, x: Option<Stage>)
  requires same_sizes(a, b), 0 <= i < b.len(), x->Some_0.m_contexts.len() == b[i]->Some_0.m_contexts.len()
  ensures #[trigger] same_sizes(a, b.update(i, x))
{ reveal(same_sizes); }
pub broadcast proof fn lemma_total(a: Seq<Option<Stage>>, b: Seq<Option<Stage>>)
  requires #[trigger] same_sizes(a, b)
  ensures a.len() == b.len(), total(a, a.len() as int) == total(b, b.len() as int)
{ reveal(same_sizes); lemma_total_of(a, b, a.len() as int); }
pub proof fn lemma_total_of(a: Seq<Option<Stage>>, b: Seq<Option<Stage>>, n: int)
  requires same_sizes(a, b), n <= a.len()
  ensures total(a, n) == total(b, n)
  decreases n
{ reveal(same_sizes); if n > 0 { lemma_total_of(a, b, n - 1); } }
pub broadcast proof fn lemma_total_part(a: Seq<Option<Stage>>, n: int)
  requires 0 <= n <= a.len()
  ensures 0 <= #[trigger] total(a, n) <= total(a, a.len() as int), n < a.len() ==> total(a, n) + a[n]->Some_0.m_contexts.len() <= total(a, a.len() as int)
  decreases a.len() - n
{ if n < a.len() { lemma_total_part(a, n + 1); } lemma_total_nat(a, n); }
pub proof fn lemma_total_nat(a: Seq<Option<Stage>>, n: int)
  ensures total(a, n) >= 0
  decreases n
{ if n > 0 { lemma_total_nat(a, n - 1); } }
pub broadcast group server_lemmas {
  lemma_stage_at, lemma_stage_update, lemma_stage_none, lemma_same, lemma_same_at, lemma_same_update, lemma_total, lemma_total_part,
}
