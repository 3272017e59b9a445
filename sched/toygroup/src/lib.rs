pub use toybls::Group;
