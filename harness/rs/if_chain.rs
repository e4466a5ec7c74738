// if_chain! { if a; if let p = b; let q = c; then { x } else { y } }
#[macro_export]
macro_rules! if_chain {
    (if $($r:tt)+) => { $crate::chain! { [] if $($r)+ } };
    (let $($r:tt)+) => { $crate::chain! { [] let $($r)+ } };
}
#[macro_export]
macro_rules! chain {
    ([] let $p:pat = $e:expr; $($r:tt)+) => { { let $p = $e; $crate::chain! { [] $($r)+ } } };
    ([] if let $p:pat = $e:expr; $($r:tt)+) => { if let $p = $e { $crate::chain! { [] $($r)+ } } };
    ([] if $c:expr; $($r:tt)+) => { if $c { $crate::chain! { [] $($r)+ } } };
    ([] then { $($x:tt)* }) => { { $($x)* } };
}
