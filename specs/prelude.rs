// Values and library functions of the translated C++ code.
pub struct Opaque { pub id: int }

pub struct Ptr<T> { pub id: int, pub v: T }

pub open spec fn ptr_eq<T>(a: Option<Ptr<T>>, b: Option<Ptr<T>>) -> bool {
  match (a, b) {
    (Some(x), Some(y)) => x.id == y.id,
    (None, None) => true,
    _ => false,
  }
}

// an unknown value, a different one at every call
pub proof fn havoc<T>() -> (r: T) { arbitrary() }

pub open spec fn wrap_u8(x: int) -> int { x % 0x100 }
pub open spec fn wrap_u16(x: int) -> int { x % 0x10000 }
pub open spec fn wrap_u32(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn wrap_u64(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn wrap_i8(x: int) -> int { (x + 0x80) % 0x100 - 0x80 }
pub open spec fn wrap_i16(x: int) -> int { (x + 0x8000) % 0x10000 - 0x8000 }
pub open spec fn wrap_i32(x: int) -> int { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 }
pub open spec fn wrap_i64(x: int) -> int {
  (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000
}

// C++ division truncates towards zero
pub open spec fn c_div(a: int, b: int) -> int {
  if b == 0 { 0 } else if a >= 0 && b > 0 { a / b } else if a < 0 && b > 0 { -((-a) / b) }
  else if a >= 0 { -(a / (-b)) } else { (-a) / (-b) }
}
pub open spec fn c_mod(a: int, b: int) -> int { a - c_div(a, b) * b }

pub open spec fn shl(a: int, b: int) -> int decreases b {
  if b <= 0 { a } else { 2 * shl(a, b - 1) }
}

// ---- sequences ----
#[verifier::opaque]
pub open spec fn seq_find<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> int
  decreases hi - lo
{
  if lo >= hi { hi } else if p(s[lo]) { lo } else { seq_find(s, lo + 1, hi, p) }
}

pub broadcast proof fn lemma_seq_find<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool)
  requires lo <= hi
  ensures
    lo <= #[trigger] seq_find(s, lo, hi, p) <= hi,
    seq_find(s, lo, hi, p) < hi ==> p(s[seq_find(s, lo, hi, p)]),
    forall|k: int| lo <= k < seq_find(s, lo, hi, p) ==> !p(#[trigger] s[k]),
  decreases hi - lo
{
  reveal_with_fuel(seq_find, 2);
  if lo < hi && !p(s[lo]) {
    lemma_seq_find(s, lo + 1, hi, p);
  }
}

// reverse search: base of the reverse iterator (one behind the element, lo when not found)
#[verifier::opaque]
pub open spec fn seq_rfind<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> int
  decreases hi - lo
{
  if lo >= hi { lo } else if p(s[hi - 1]) { hi } else { seq_rfind(s, lo, hi - 1, p) }
}

pub broadcast proof fn lemma_seq_rfind<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool)
  requires lo <= hi
  ensures
    lo <= #[trigger] seq_rfind(s, lo, hi, p) <= hi,
    seq_rfind(s, lo, hi, p) > lo ==> p(s[seq_rfind(s, lo, hi, p) - 1]),
    forall|k: int| seq_rfind(s, lo, hi, p) <= k < hi ==> !p(#[trigger] s[k]),
  decreases hi - lo
{
  reveal_with_fuel(seq_rfind, 2);
  if lo < hi && !p(s[hi - 1]) {
    lemma_seq_rfind(s, lo, hi - 1, p);
  }
}

pub open spec fn seq_any<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> bool {
  exists|k: int| lo <= k < hi && p(#[trigger] s[k])
}
pub open spec fn seq_all<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> bool {
  forall|k: int| lo <= k < hi ==> p(#[trigger] s[k])
}

#[verifier::opaque]
pub open spec fn seq_count<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> int
  decreases hi - lo
{
  if lo >= hi { 0 } else { (if p(s[lo]) { 1int } else { 0int }) + seq_count(s, lo + 1, hi, p) }
}

pub broadcast proof fn lemma_seq_count<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool)
  ensures
    0 <= #[trigger] seq_count(s, lo, hi, p),
    lo <= hi ==> seq_count(s, lo, hi, p) <= hi - lo,
    seq_count(s, lo, hi, p) > 0 <==> seq_any(s, lo, hi, p),
  decreases hi - lo
{
  reveal_with_fuel(seq_count, 2);
  if lo < hi {
    lemma_seq_count(s, lo + 1, hi, p);
    if p(s[lo]) { }
    if seq_any(s, lo + 1, hi, p) {
      let k = choose|k: int| lo + 1 <= k < hi && p(#[trigger] s[k]);
      assert(lo <= k < hi && p(s[k]));
    }
    if seq_any(s, lo, hi, p) && !p(s[lo]) {
      let k = choose|k: int| lo <= k < hi && p(#[trigger] s[k]);
      assert(lo + 1 <= k < hi && p(s[k]));
    }
  }
}

#[verifier::opaque]
pub open spec fn seq_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
  decreases s.len()
{
  if s.len() == 0 { Seq::empty() }
  else {
    let r = seq_filter(s.drop_last(), p);
    if p(s.last()) { r.push(s.last()) } else { r }
  }
}

pub broadcast proof fn lemma_seq_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool)
  ensures
    (#[trigger] seq_filter(s, p)).len() <= s.len(),
    forall|k: int| 0 <= k < seq_filter(s, p).len() ==> p(#[trigger] seq_filter(s, p)[k]),
    forall|k: int| 0 <= k < seq_filter(s, p).len() ==> s.contains(#[trigger] seq_filter(s, p)[k]),
    forall|k: int| 0 <= k < s.len() && p(s[k]) ==> seq_filter(s, p).contains(#[trigger] s[k]),
  decreases s.len()
{
  reveal_with_fuel(seq_filter, 2);
  if s.len() > 0 {
    let d = s.drop_last();
    lemma_seq_filter(d, p);
    let r = seq_filter(d, p);
    let f = seq_filter(s, p);
    assert forall|k: int| 0 <= k < f.len() implies s.contains(#[trigger] f[k]) by {
      if k < r.len() {
        assert(f[k] == r[k]);
        let j = choose|j: int| 0 <= j < d.len() && d[j] == r[k];
        assert(s[j] == f[k]);
      } else {
        assert(s[s.len() - 1] == f[k]);
      }
    }
    assert forall|k: int| 0 <= k < s.len() && p(s[k]) implies f.contains(#[trigger] s[k]) by {
      if k < d.len() {
        assert(d[k] == s[k]);
        let j = choose|j: int| 0 <= j < r.len() && r[j] == d[k];
        assert(f[j] == s[k]);
      } else {
        assert(f[f.len() - 1] == s[k]);
      }
    }
  }
}

pub open spec fn seq_erase<T>(s: Seq<T>, i: int, j: int) -> Seq<T> {
  s.subrange(0, i).add(s.subrange(j, s.len() as int))
}
pub open spec fn seq_insert_range<T>(s: Seq<T>, i: int, r: Seq<T>) -> Seq<T> {
  s.subrange(0, i).add(r).add(s.subrange(i, s.len() as int))
}
pub open spec fn seq_fill<T>(n: nat, x: T) -> Seq<T> { Seq::new(n, |_i: int| x) }
pub open spec fn seq_resize<T>(s: Seq<T>, n: int, v: T) -> Seq<T> {
  Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { v })
}
pub open spec fn seq_substr<T>(s: Seq<T>, a: int, n: int) -> Seq<T> {
  s.subrange(a, if n <= s.len() - a { a + n } else { s.len() as int })
}
pub open spec fn seq_sorted<T>(s: Seq<T>, less: spec_fn(T, T) -> bool) -> bool {
  forall|i: int, j: int| 0 <= i < j < s.len() ==> !less(#[trigger] s[j], #[trigger] s[i])
}
pub open spec fn seq_partitioned<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> bool {
  forall|i: int, j: int| lo <= i < j < hi && p(#[trigger] s[j]) ==> p(#[trigger] s[i])
}
pub open spec fn seq_rpartitioned<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> bool {
  forall|i: int, j: int| lo <= i < j < hi && p(#[trigger] s[i]) ==> p(#[trigger] s[j])
}
// first element not satisfying p
pub open spec fn seq_lower<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> int {
  seq_find(s, lo, hi, |x: T| !p(x))
}
pub open spec fn seq_rlower<T>(s: Seq<T>, lo: int, hi: int, p: spec_fn(T) -> bool) -> int {
  seq_rfind(s, lo, hi, |x: T| !p(x))
}

pub open spec fn str_at(s: Seq<i8>, t: Seq<i8>, i: int) -> bool {
  0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) =~= t
}
// position of the first occurrence, npos otherwise
pub open spec fn str_find(s: Seq<i8>, t: Seq<i8>, from: int) -> int {
  if exists|i: int| i >= from && str_at(s, t, i) {
    choose|i: int| i >= from && str_at(s, t, i) && forall|j: int| from <= j < i ==> !str_at(s, t, j)
  } else {
    0xffff_ffff_ffff_ffff
  }
}

// floating point values are opaque: only equal inputs give equal results
pub struct Real { pub v: int }
pub uninterp spec fn real_zero() -> Real;
pub uninterp spec fn real_duration(ticks: int, num: int, den: int) -> Real;
pub uninterp spec fn real_ticks(r: Real, num: int, den: int) -> int;
