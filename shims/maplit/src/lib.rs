//! Stand-in for `maplit`.
#[macro_export] macro_rules! hashmap { () => { ::std::collections::HashMap::new() }; ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = ::std::collections::HashMap::new(); $( let _ = m.insert($k, $v); )* m }}; }
#[macro_export] macro_rules! btreemap { () => { ::std::collections::BTreeMap::new() }; ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = ::std::collections::BTreeMap::new(); $( let _ = m.insert($k, $v); )* m }}; }
#[macro_export] macro_rules! hashset { () => { ::std::collections::HashSet::new() }; ($($k:expr),* $(,)?) => {{ let mut m = ::std::collections::HashSet::new(); $( let _ = m.insert($k); )* m }}; }
#[macro_export] macro_rules! btreeset { () => { ::std::collections::BTreeSet::new() }; ($($k:expr),* $(,)?) => {{ let mut m = ::std::collections::BTreeSet::new(); $( let _ = m.insert($k); )* m }}; }
