//! Logging has no effect on the behaviour under verification: every macro is a no-op.
#[macro_export] macro_rules! info { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! warn { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! error { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! debug { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! trace { ($($t:tt)*) => { { } } }
#[macro_export] macro_rules! log { ($($t:tt)*) => { { } } }
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Level { Error, Warn, Info, Debug, Trace }
