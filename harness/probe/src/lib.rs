pub mod prelude;
