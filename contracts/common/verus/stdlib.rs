// ---- contracts of standard-library operations used by the extracted code
spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
/// slice::sort_by_key: a stable permutation into key order.
#[verifier::external_body]
fn vx_sort_by_key<A>(keys: Vec<u64>, v: &mut Vec<A>)
    requires keys@.len() == old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), exists|p: Seq<int>| is_perm(p, old(v)@.len() as int)
        && (forall|i: int| 0 <= i < p.len() ==> final(v)@[i] == old(v)@[#[trigger] p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> keys@[#[trigger] p[i]] <= keys@[#[trigger] p[j]] && (keys@[p[i]] == keys@[p[j]] ==> p[i] < p[j]))
{ }
/// Vec::dedup: neighbours that compare equal are merged.
spec fn deduped<A>(a: Seq<A>, b: Seq<A>) -> bool {
    &&& exists|f: Seq<int>| f.len() == b.len()
            && (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < a.len() && b[i] == a[f[i]])
            && (forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] < #[trigger] f[j])
            && (forall|k: int| 0 <= k < a.len() ==> b.contains(#[trigger] a[k]))
    &&& forall|i: int| 0 <= i < b.len() - 1 ==> b[i] != #[trigger] b[i + 1]
}
#[verifier::external_body]
fn vx_dedup<A>(v: &mut Vec<A>)
    ensures deduped(old(v)@, final(v)@)
{ }
fn vx_reverse<A: Copy>(v: &mut Vec<A>)
    ensures final(v)@ == old(v)@.reverse()
{
    let ghost o = v@;
    let n = v.len();
    let mut i: usize = 0;
    while i < n / 2
        invariant n == o.len(), v@.len() == n, i <= n / 2, forall|k: int| 0 <= k < n ==> v@[k] == (if k < i || k >= n - i { o[n - 1 - k] } else { o[k] })
        decreases n / 2 - i
    {
        let a = v[i]; let b = v[n - 1 - i];
        v.set(i, b); v.set(n - 1 - i, a);
        i = i + 1;
    }
    proof { assert(v@ =~= o.reverse()); }
}
/// Vec::retain: keep the elements whose flag is set, in order.
spec fn kept<A>(s: Seq<A>, m: Seq<bool>) -> Seq<A> decreases s.len() {
    if s.len() == 0 { s } else if m[s.len() - 1] { kept(s.drop_last(), m).push(s.last()) } else { kept(s.drop_last(), m) }
}
fn vx_retain<A: Copy>(mask: Vec<bool>, v: &mut Vec<A>)
    requires mask@.len() == old(v)@.len()
    ensures final(v)@ == kept(old(v)@, mask@)
{
    let ghost o = v@;
    let mut out: Vec<A> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant v@ == o, mask@.len() == o.len(), i <= o.len(), out@ == kept(o.subrange(0, i as int), mask@)
        decreases o.len() - i
    {
        proof { assert(o.subrange(0, i + 1).drop_last() =~= o.subrange(0, i as int)); }
        if mask[i] { out.push(v[i]); }
        i = i + 1;
    }
    proof { assert(o.subrange(0, i as int) =~= o); }
    *v = out;
}
pub assume_specification<T, E> [core::result::Result::<T, E>::unwrap_or] (r: core::result::Result<T, E>, d: T) -> (res: T)
    ensures res == (match r { Ok(v) => v, Err(_) => d });
