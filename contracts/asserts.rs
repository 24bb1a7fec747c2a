//@ rw debug_assert_eq!($a, $b) ==> assert!($a == $b)
//@ rw debug_assert_eq!($a, $b, $$rest) ==> assert!($a == $b)
//@ rw assert_eq!($a, $b) ==> assert!($a == $b)
//@ rw assert_eq!($a, $b, $$rest) ==> assert!($a == $b)
//@ rw debug_assert!($a) ==> assert!($a)
//@ rw debug_assert!($a, $$rest) ==> assert!($a)
//@ rw assert!($a, $$rest) ==> assert!($a)
//@ rw panic!($a) ==> panic!()
//@ rw panic!($a, $$rest) ==> panic!()
