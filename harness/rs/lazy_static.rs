// static values made when they are first used
#[macro_export]
macro_rules! lazy_static {
    () => {};
    ($(#[$a:meta])* pub static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => {
        pub static $n: std::sync::LazyLock<$t> = std::sync::LazyLock::new(|| $e);
        $crate::lazy_static! { $($r)* }
    };
    ($(#[$a:meta])* static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => {
        static $n: std::sync::LazyLock<$t> = std::sync::LazyLock::new(|| $e);
        $crate::lazy_static! { $($r)* }
    };
}
