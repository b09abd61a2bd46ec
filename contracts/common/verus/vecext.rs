/// What a copy of x may be.
spec fn vx_copy<T: Clone>(x: T, y: T) -> bool { x == y || call_ensures(T::clone, (&x,), y) }
trait VxRepopulate<T> { fn repopulate(&mut self, len: usize, value: T) -> (res: &mut [T]) where T: Clone; }
//@ fn src/lib.rs Vec::repopulate
//@ impl <T> VxRepopulate<T> for Vec<T>
//@ spec
    ensures res@.len() == len, final(self)@ == final(res)@, forall|i: int| 0 <= i < len ==> vx_copy(value, #[trigger] res@[i])
//@ end
