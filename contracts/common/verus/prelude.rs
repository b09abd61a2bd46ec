// ---- standing for Rust's own primitives (bodies below are verified unless marked external_body)
#[verifier::external_body]
fn vx_panic() requires false { panic!() }
#[verifier::external_body]
fn vx_unreached<A>() -> (res: A) requires false { panic!() }
#[verifier::external_body]
fn vx_cfg() -> (res: bool) { cfg!(debug_assertions) }
fn vx_from_elem<A: Copy>(a: A, n: usize) -> (res: Vec<A>)
    ensures res@.len() == n, forall|i: int| 0 <= i < n ==> res@[i] == a
{
    let mut v: Vec<A> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == a
        decreases n - i
    { v.push(a); i = i + 1; }
    v
}
