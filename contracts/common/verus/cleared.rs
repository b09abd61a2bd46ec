trait VxCleared { fn cleared(&mut self) -> (res: &mut Self); }
//@ fn src/lib.rs Vec::cleared
//@ impl <T> VxCleared for Vec<T>
//@ spec
    ensures res@.len() == 0, final(self)@ == final(res)@
//@ end
