//! The repository declares this dependency and does not use it.
