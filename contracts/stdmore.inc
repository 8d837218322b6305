// ---------------------------------------------------------------- more of Option, Result, bool, mem and integers
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct>[ Option::<T>::is_some_and ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct>[ Option::<T>::is_none_or ](o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures match o { Some(v) => f.ensures((v,), r), None => r };
pub assume_specification<T, U, D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct>[ Option::<T>::map_or_else ](o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures match o { Some(v) => f.ensures((v,), r), None => d.ensures((), r) };
pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce() -> Option<T> + core::marker::Destruct>[ Option::<T>::or_else ](o: Option<T>, f: F) -> (r: Option<T>)
    where T: core::marker::Destruct
    requires o is None ==> f.requires(()),
    ensures match o { Some(v) => r == o, None => f.ensures((), r) };
pub assume_specification<T, U>[ Option::<T>::zip ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    where T: core::marker::Destruct, U: core::marker::Destruct
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None::<(T, U)> });
pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    where T: core::marker::Destruct, U: core::marker::Destruct
    ensures r == (if o is Some { p } else { None::<U> });
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(p) => p, None => None::<T> });
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(v)) => Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    where T: core::marker::Destruct, E: core::marker::Destruct
    ensures r == (match o { Ok(v) => v, Err(_) => d });
pub assume_specification<T, E, F: FnOnce(E) -> T + core::marker::Destruct>[ Result::<T, E>::unwrap_or_else ](o: Result<T, E>, f: F) -> (r: T)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, G, F: FnOnce(E) -> Result<T, G> + core::marker::Destruct>[ Result::<T, E>::or_else ](o: Result<T, E>, f: F) -> (r: Result<T, G>)
    requires o is Err ==> f.requires((o->Err_0,)),
    ensures match o { Ok(v) => r == Ok::<T, G>(v), Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, F: FnOnce(T) -> bool + core::marker::Destruct>[ Result::<T, E>::is_ok_and ](o: Result<T, E>, f: F) -> (r: bool)
    where E: core::marker::Destruct
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(v) => f.ensures((v,), r), Err(_) => !r };
pub assume_specification<T, E, U, F: FnOnce(T) -> U + core::marker::Destruct>[ Result::<T, E>::map_or ](o: Result<T, E>, d: U, f: F) -> (r: U)
    where E: core::marker::Destruct, U: core::marker::Destruct
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures match o { Ok(v) => f.ensures((v,), r), Err(_) => r == d };
pub assume_specification<T, E, U>[ Result::<T, E>::and ](o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
    where T: core::marker::Destruct, E: core::marker::Destruct, U: core::marker::Destruct
    ensures r == (match o { Ok(_) => p, Err(e) => Err::<U, E>(e) });
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>)
    where T: core::marker::Destruct
    ensures r == (if b { Some(t) } else { None::<T> });
pub assume_specification<T>[ core::mem::replace ](d: &mut T, s: T) -> (r: T)
    ensures *final(d) == s, r == *old(d);
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == (if a < b { b - a } else { a - b });
pub assume_specification[ usize::div_ceil ](a: usize, b: usize) -> (r: usize)
    requires b != 0,
    ensures r == (if a == 0 { 0 } else { (a - 1) / b as int + 1 });
