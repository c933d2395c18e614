//! Whole files, as std reads and writes them.
use std::io::Result;
use std::path::Path;
pub async fn read(p: impl AsRef<Path>) -> Result<Vec<u8>> { std::fs::read(p) }
pub async fn read_to_string(p: impl AsRef<Path>) -> Result<String> { std::fs::read_to_string(p) }
pub async fn write(p: impl AsRef<Path>, d: impl AsRef<[u8]>) -> Result<()> { std::fs::write(p, d) }
