pub use toybls::Field;
