pub use stylish;
