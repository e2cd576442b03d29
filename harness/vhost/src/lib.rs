pub use hooq;
