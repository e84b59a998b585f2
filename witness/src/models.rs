//! Library semantics written as plain Rust: the analyser reads the bodies
//! (as MIR) whenever the analysed code calls the library function of the same
//! name.  Nothing here is ever executed.

pub struct Map<I, F> { pub i: I, pub f: F }
pub fn Map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.i.next() { Some(x) => Some((s.f)(x)), None => None }
}
pub fn Map_next_back<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.i.next_back() { Some(x) => Some((s.f)(x)), None => None }
}
pub struct Enumerate<I> { pub i: I, pub n: usize }
pub fn Enumerate_next<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match s.i.next() { Some(x) => { let n = s.n; s.n = n + 1; Some((n, x)) } None => None }
}
pub struct Filter<I, F> { pub i: I, pub f: F }
pub fn Filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> {
    while let Some(x) = s.i.next() { if (s.f)(&x) { return Some(x); } }
    None
}
pub struct FilterMap<I, F> { pub i: I, pub f: F }
pub fn FilterMap_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    while let Some(x) = s.i.next() { if let Some(y) = (s.f)(x) { return Some(y); } }
    None
}
pub struct Zip<I, J> { pub a: I, pub b: J }
pub fn Zip_next<I: Iterator, J: Iterator>(s: &mut Zip<I, J>) -> Option<(I::Item, J::Item)> {
    match s.a.next() { Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None }, None => None }
}
pub struct Chain<I, J> { pub a: Option<I>, pub b: J }
pub fn Chain_next<I: Iterator, J: Iterator<Item = I::Item>>(s: &mut Chain<I, J>) -> Option<I::Item> {
    if let Some(a) = &mut s.a {
        match a.next() { Some(x) => return Some(x), None => s.a = None }
    }
    s.b.next()
}
pub struct Take<I> { pub i: I, pub n: usize }
pub fn Take_next<I: Iterator>(s: &mut Take<I>) -> Option<I::Item> {
    if s.n == 0 { return None; }
    s.n -= 1;
    s.i.next()
}
pub struct Skip<I> { pub i: I, pub n: usize }
pub fn Skip_next<I: Iterator>(s: &mut Skip<I>) -> Option<I::Item> {
    while s.n > 0 { s.n -= 1; if s.i.next().is_none() { s.n = 0; return None; } }
    s.i.next()
}
pub struct TakeWhile<I, F> { pub i: I, pub f: F, pub done: bool }
pub fn TakeWhile_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, F>) -> Option<I::Item> {
    if s.done { return None; }
    match s.i.next() { Some(x) => if (s.f)(&x) { Some(x) } else { s.done = true; None }, None => None }
}
pub struct SkipWhile<I, F> { pub i: I, pub f: F, pub go: bool }
pub fn SkipWhile_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut SkipWhile<I, F>) -> Option<I::Item> {
    if s.go { return s.i.next(); }
    while let Some(x) = s.i.next() { if !(s.f)(&x) { s.go = true; return Some(x); } }
    None
}
pub struct StepBy<I> { pub i: I, pub n: usize, pub first: bool }
pub fn StepBy_next<I: Iterator>(s: &mut StepBy<I>) -> Option<I::Item> {
    if s.first { s.first = false; return s.i.next(); }
    let mut k = 1;
    while k < s.n { if s.i.next().is_none() { return None; } k += 1; }
    s.i.next()
}
pub struct Inspect<I, F> { pub i: I, pub f: F }
pub fn Inspect_next<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> {
    match s.i.next() { Some(x) => { (s.f)(&x); Some(x) } None => None }
}
pub struct Scan<I, S, F> { pub i: I, pub st: S, pub f: F }
pub fn Scan_next<I: Iterator, S, B, F: FnMut(&mut S, I::Item) -> Option<B>>(s: &mut Scan<I, S, F>) -> Option<B> {
    match s.i.next() { Some(x) => (s.f)(&mut s.st, x), None => None }
}
pub struct Peekable<I: Iterator> { pub i: I, pub p: Option<Option<I::Item>> }
pub fn Peekable_next<I: Iterator>(s: &mut Peekable<I>) -> Option<I::Item> {
    match s.p.take() { Some(v) => v, None => s.i.next() }
}
pub fn Peekable_peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> {
    if s.p.is_none() { s.p = Some(s.i.next()); }
    match &s.p { Some(Some(v)) => Some(v), _ => None }
}
pub struct FlatMap<I, U, F> { pub i: I, pub f: F, pub cur: Option<U> }
pub fn FlatMap_next<I: Iterator, U: Iterator, V: IntoIterator<IntoIter = U, Item = U::Item>, F: FnMut(I::Item) -> V>(s: &mut FlatMap<I, U, F>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut s.cur {
            if let Some(x) = c.next() { return Some(x); }
            s.cur = None;
        }
        match s.i.next() { Some(x) => s.cur = Some((s.f)(x).into_iter()), None => return None }
    }
}
pub struct Flatten<I, U> { pub i: I, pub cur: Option<U> }
pub fn Flatten_next<I: Iterator, U: Iterator>(s: &mut Flatten<I, U>) -> Option<U::Item>
where I::Item: IntoIterator<IntoIter = U, Item = U::Item> {
    loop {
        if let Some(c) = &mut s.cur {
            if let Some(x) = c.next() { return Some(x); }
            s.cur = None;
        }
        match s.i.next() { Some(x) => s.cur = Some(x.into_iter()), None => return None }
    }
}
pub struct Rev<I> { pub i: I }
pub fn Rev_next<I: DoubleEndedIterator>(s: &mut Rev<I>) -> Option<I::Item> { s.i.next_back() }
pub fn Rev_next_back<I: DoubleEndedIterator>(s: &mut Rev<I>) -> Option<I::Item> { s.i.next() }
pub struct MapWhile<I, F> { pub i: I, pub f: F }
pub fn MapWhile_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhile<I, F>) -> Option<B> {
    match s.i.next() { Some(x) => (s.f)(x), None => None }
}
pub struct Once<T> { pub v: Option<T> }
pub fn Once_next<T>(s: &mut Once<T>) -> Option<T> { s.v.take() }
pub struct FromFn<F> { pub f: F }
pub fn FromFn_next<T, F: FnMut() -> Option<T>>(s: &mut FromFn<F>) -> Option<T> { (s.f)() }
pub struct Successors<T, F> { pub v: Option<T>, pub f: F }
pub fn Successors_next<T: Clone, F: FnMut(&T) -> Option<T>>(s: &mut Successors<T, F>) -> Option<T> {
    match s.v.take() { Some(x) => { s.v = (s.f)(&x); Some(x) } None => None }
}
pub struct RepeatN<T> { pub v: T, pub n: usize }
pub fn RepeatN_next<T: Clone>(s: &mut RepeatN<T>) -> Option<T> {
    if s.n == 0 { return None; }
    s.n -= 1;
    Some(s.v.clone())
}
pub struct Repeat<T> { pub v: T }
pub fn Repeat_next<T: Clone>(s: &mut Repeat<T>) -> Option<T> { Some(s.v.clone()) }

// ------------------------------------------------------------- terminals
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut a = init;
    while let Some(x) = it.next() { a = f(a, x); }
    a
}
pub fn try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut a = init;
    while let Some(x) = it.next() { match f(a, x) { Ok(v) => a = v, Err(e) => return Err(e) } }
    Ok(a)
}
pub fn try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut a = init;
    while let Some(x) = it.next() { match f(a, x) { Some(v) => a = v, None => return None } }
    Some(a)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(_) => {} Err(e) => return Err(e) } }
    Ok(())
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
    None
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = 0;
    while k < n { if it.next().is_none() { return None; } k += 1; }
    it.next()
}
pub fn sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(x) = it.next() { n += x; }
    n
}
pub fn max_by_key<I: Iterator, K: PartialOrd, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r: Option<(K, I::Item)> = None;
    while let Some(x) = it.next() {
        let k = f(&x);
        r = match r { None => Some((k, x)), Some((k0, y)) => if k < k0 { Some((k0, y)) } else { Some((k, x)) } };
    }
    match r { Some((_, x)) => Some(x), None => None }
}
pub fn min_by_key<I: Iterator, K: PartialOrd, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r: Option<(K, I::Item)> = None;
    while let Some(x) = it.next() {
        let k = f(&x);
        r = match r { None => Some((k, x)), Some((k0, y)) => if k < k0 { Some((k, x)) } else { Some((k0, y)) } };
    }
    match r { Some((_, x)) => Some(x), None => None }
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn collect_option<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { match x { Some(y) => v.push(y), None => return None } }
    Some(v)
}
pub fn collect_concat_str<'a, I: Iterator<Item = &'a str>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() { v.push_str(x); }
    v
}
pub fn collect_concat_char<I: Iterator<Item = char>>(mut it: I) -> String {
    let mut v = String::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn extend_vec<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() { v.push(x); }
}
pub fn extend_string<I: Iterator<Item = char>>(v: &mut String, mut it: I) {
    while let Some(x) = it.next() { v.push(x); }
}
pub fn extend_string_str<'a, I: Iterator<Item = &'a str>>(v: &mut String, mut it: I) {
    while let Some(x) = it.next() { v.push_str(x); }
}
pub fn join<T: AsRef<str>>(v: &[T], sep: &str) -> String {
    let mut s = String::new();
    let mut first = true;
    for x in v { if !first { s.push_str(sep); } first = false; s.push_str(x.as_ref()); }
    s
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for x in old { if f(&x) { v.push(x); } }
}
pub fn dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for mut x in old {
        let same = match v.last_mut() { Some(l) => f(&mut x, l), None => false };
        if !same { v.push(x); }
    }
}
pub fn dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    let old = std::mem::take(v);
    for mut x in old {
        let same = match v.last_mut() { Some(l) => f(&mut x) == f(l), None => false };
        if !same { v.push(x); }
    }
}
pub fn dedup<T: PartialEq>(v: &mut Vec<T>) {
    let old = std::mem::take(v);
    for x in old {
        let same = match v.last() { Some(l) => x == *l, None => false };
        if !same { v.push(x); }
    }
}
// Option/Result combinators whose library bodies are not always available
pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
